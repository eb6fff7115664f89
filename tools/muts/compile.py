L="macros/src/lib.rs"; U="macros/src/utils.rs"; K="core/src/macro_utils.rs"
def R(id,*e): return dict(id=id, edits=list(e), want="quiet", checks="C25 C26 C27 C28 C29")
def M(id,*e): return dict(id=id, edits=list(e), want="alarm", checks="C29")
G="""    if !input.generics.params.is_empty() || input.generics.where_clause.is_some() {
        return syn::Error::new_spanned(
            input.ident,
            "ULog%s derive"""
MUTS=[
M("s-where",(L,G%"Data",(G%"Data").replace(" || input.generics.where_clause.is_some()",""))),
M("s-types-only",(L,G%"Data",(G%"Data").replace("!input.generics.params.is_empty()","input.generics.type_params().any(|p| p.default.is_none())"))),
M("e-where",(L,G%"Messages",(G%"Messages").replace(" || input.generics.where_clause.is_some()",""))),
M("e-params",(L,G%"Messages",(G%"Messages").replace("!input.generics.params.is_empty()","input.generics.type_params().next().is_some()"))),
M("two-catchalls",(L,"if forward_other_variant_ident.is_some() {","if forward_other_variant_ident.as_ref() == Some(&v.ident) {")),
M("idx-raw",(L,"let name = named_ident(f).unraw();","let name = named_ident(f);")),
M("idx-suffix",(L,'format!("{name}_index")','format!("{}_index", name.to_string().trim_end_matches("_index"))')),
M("accessor-no-enum",(L,'&format!("__yule_log_derive_{enum_base_name}Accessor")','"__yule_log_derive_Accessor"')),
M("other-fixed",(L,"return Some(Ok(#enum_name::#forward_ident(msg)));","return Some(Ok(#enum_name::Other(msg)));")),
M("import",(L,"::yule_log::model::msg::UlogMessage::AddSubscription(sub) => {","UlogMessage::AddSubscription(sub) => {")),
M("option-exact",(U,"if let Some(seg) = type_path.path.segments.last() {","if let Some(seg) = type_path.path.get_ident().map(|_| &type_path.path.segments[0]).or_else(|| type_path.path.segments.first().filter(|_| type_path.path.segments.len() == 1)) {")),
M("get-data-raw",(L,"stringify!(#name).to_string()","{ let #name = stringify!(#name); #name.to_string() }.trim().to_string() + &#name.to_string()")),
M("accessor-lower",(L,'&format!("{}Accessor", struct_name.unraw()),','&format!("{}Accessor", struct_name.unraw().to_string().to_upper_camel_case()),'),(L,"use heck::ToSnakeCase","use heck::{ToSnakeCase, ToUpperCamelCase}")),
M("builder-pub",(L,"struct #builder_struct_name<R: std::io::Read> {","struct Builder<R: std::io::Read> {"),(L,"impl<R: std::io::Read> #builder_struct_name<R> {","impl<R: std::io::Read> Builder<R> {"),(L,"-> #builder_struct_name<R> {","-> Builder<R> {"),(L,"#builder_struct_name::new(reader)","Builder::new(reader)")),
M("union-data",(L,"""    let fields = if let syn::Data::Struct(data) = &input.data {
        data.fields.iter().collect::<Vec<_>>()
    } else {""","""    let fields = if let syn::Data::Struct(data) = &input.data {
        data.fields.iter().collect::<Vec<_>>()
    } else if matches!(&input.data, syn::Data::Enum(e) if e.variants.is_empty()) {
        return TokenStream::new();
    } else {""")),
M("msg-struct-silent",(L,"""    } else {
        return syn::Error::new_spanned(input.ident, "ULogMessages derive""","""    } else if matches!(&input.data, syn::Data::Struct(s) if s.fields.is_empty()) {
        return TokenStream::new();
    } else {
        return syn::Error::new_spanned(input.ident, "ULogMessages derive""")),
R("fmt-enum",(L,'&format!("__yule_log_derive_{enum_base_name}Accessor")','&format!("__yule_log_derived_{enum_base_name}_Accessor")')),
R("generics-helper",(L,G%"Data",(G%"Data").replace("!input.generics.params.is_empty() || input.generics.where_clause.is_some()","input.generics.params.iter().count() > 0 || input.generics.where_clause.as_ref().map_or(false, |_| true)"))),
R("count-catchalls",(L,"""            if forward_other_variant_ident.is_some() {""","""            if let Some(_earlier) = &forward_other_variant_ident {""")),
R("option-helper",(U,"""                return matches!(seg.arguments, PathArguments::AngleBracketed(_));""","""                return extract_option_type(ty).is_some();""")),
]
