L="macros/src/lib.rs"; K="core/src/macro_utils.rs"; U="macros/src/utils.rs"
H="""
use yule_log::{ULogData, ULogMessages};
"""
SEEDS=[
dict(id="c25-first-field-optional", prop="C25", edits=[(L,"#idx_ident: map.get(#ulog_name).copied()","// Position 0 is taken by the timestamp.\n                    #idx_ident: map.get(#ulog_name).copied().filter(|idx| *idx > 0)")],
 needs="an optional member that is mapped to the first field of a definition, which for a nested definition is not the timestamp", breaks="the member is None although the field is there",
 demo=H+"""
#[derive(ULogData)]
pub struct Inner { x: Option<f32>, y: Option<u8> }
#[derive(ULogData)]
pub struct Outer { n: Inner }
#[derive(ULogMessages)]
pub enum Messages { Outer(Outer) }
fn main() {
    let f = cat(&[hdr(), fmt("inner:float x;uint8_t y;"), fmt("outer:uint64_t timestamp;inner n;"), sub(0, 1, "outer"),
        data(1, &[&9u64.to_le_bytes()[..], &1.5f32.to_le_bytes(), &[7]].concat())]);
    let v: Vec<_> = Messages::stream(&f[..]).unwrap().map(|r| r.unwrap()).collect();
    let Messages::Outer(o) = &v[0];
    assert_eq!((o.n.x, o.n.y), (Some(1.5), Some(7)));
}
"""),
dict(id="c25-optional-mismatch", prop="C25", edits=[(L,"Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(format.fields.get(idx)#missing_field)?)","Some(idx) => <#inner_ty as #from_field_path>::from_field(format.fields.get(idx)#missing_field).ok()")],
 needs="an optional member whose field is there but has another type", breaks="the member silently reads as None instead of the error for a type that does not match",
 demo=H+"""
#[derive(ULogData, Debug)]
pub struct Outer { x: Option<f32> }
#[derive(ULogMessages)]
pub enum Messages { Outer(Outer) }
fn main() {
    let f = cat(&[hdr(), fmt("outer:uint64_t timestamp;double x;"), sub(0, 1, "outer"), data(1, &[1u8; 16])]);
    let v: Vec<_> = Messages::stream(&f[..]).unwrap().collect();
    assert!(v.len() == 1 && v[0].is_err());
}
"""),
dict(id="c26-empty-nested", prop="C26", edits=[(K,"""                if formats.is_empty() {
                    return Ok(::std::vec::Vec::new());
                }
                let mut results = ::std::vec::Vec::with_capacity(formats.len());
                let accessor = T::from_format(&formats[0].def_format)?;
""","""                let mut results = ::std::vec::Vec::with_capacity(formats.len());
                let first = formats.first().ok_or_else(|| {
                    ULogError::TypeMismatch(format!("field {} has no elements", field.name))
                })?;
                let accessor = T::from_format(&first.def_format)?;
""")], needs="an array of nested values with no elements, mapped to a Vec of derived structs", breaks="the data message becomes an error instead of a struct with an empty Vec",
 demo=H+"""
#[derive(ULogData)]
pub struct Inner { x: f32 }
#[derive(ULogData)]
pub struct Outer { n: Vec<Inner>, y: u8 }
#[derive(ULogMessages)]
pub enum Messages { Outer(Outer) }
fn main() {
    let f = cat(&[hdr(), fmt("inner:float x;"), fmt("outer:uint64_t timestamp;inner[0] n;uint8_t y;"), sub(0, 1, "outer"), data(1, &[1u8; 9])]);
    let v: Vec<_> = Messages::stream(&f[..]).unwrap().map(|r| r.unwrap()).collect();
    let Messages::Outer(o) = &v[0];
    assert!(o.n.is_empty() && o.y == 1);
}
"""),
dict(id="c26-chars-as-bytes", prop="C26", edits=[(K,"impl_fromfield_array!(u8, ArrayU8);","""impl FromField for Vec<u8> {
    fn from_field(field: &inst::Field) -> Result<Self, ULogError> {
        match &field.value {
            inst::FieldValue::ArrayU8(v) => Ok(v.clone()),
            // Text is bytes as well.
            inst::FieldValue::ArrayChar(v) => Ok(v.iter().map(|c| c.0).collect()),
            other => Err(ULogError::TypeMismatch(format!(
                "Expected Vec<u8> but got {:?}",
                other
            ))),
        }
    }
}""")], needs="a Vec<u8> member mapped to a char array", breaks="the char array is taken for bytes instead of being refused",
 demo=H+"""
#[derive(ULogData)]
pub struct Outer { x: Vec<u8> }
#[derive(ULogMessages)]
pub enum Messages { Outer(Outer) }
fn main() {
    let f = cat(&[hdr(), fmt("outer:uint64_t timestamp;char[4] x;"), sub(0, 1, "outer"), data(1, &[65u8; 12])]);
    let v: Vec<_> = Messages::stream(&f[..]).unwrap().collect();
    assert!(v.len() == 1 && v[0].is_err());
}
"""),
dict(id="c27-dropped-after-error", prop="C27", edits=[(L,"""                                return Some(match *acc {
                                    #( #logged_data_arms ),*
                                });
""","""                                let item = match *acc {
                                    #( #logged_data_arms ),*
                                };
                                if item.is_err() {
                                    // Do not report the same mismatch over and over again.
                                    self.subs.remove(&data.msg_id);
                                }
                                return Some(item);
""")], needs="two data messages of a mapped subscription whose values do not fit the struct", breaks="only the first is reported; the later ones are dropped, or forwarded as if unmapped",
 demo=H+"""
#[derive(ULogData)]
pub struct Outer { x: f32 }
#[derive(ULogMessages)]
pub enum Messages { Outer(Outer), #[yule_log(forward_other)] Rest(UlogMessage) }
fn main() {
    let f = cat(&[hdr(), fmt("outer:uint64_t timestamp;double x;"), sub(0, 1, "outer"), data(1, &[1u8; 16]), data(1, &[2u8; 16])]);
    let v: Vec<_> = Messages::stream(&f[..]).unwrap().filter(|r| !matches!(r, Ok(Messages::Rest(UlogMessage::Header(_) | UlogMessage::FormatDefinition(_))))).collect();
    assert_eq!(v.iter().map(|r| r.is_err()).collect::<Vec<_>>(), [true, true]);
}
"""),
dict(id="c27-foreign-instance", prop="C27", edits=[(L,"(<#ty>::__YULE_LOG_SUBSCRIPTION, <#ty>::__YULE_LOG_MULTI_ID) => {","(<#ty>::__YULE_LOG_SUBSCRIPTION, multi_id) if multi_id & 0x7f == <#ty>::__YULE_LOG_MULTI_ID => {")],
 needs="a subscription to instance 128 or above of a mapped name", breaks="its data is mapped to the struct of another instance",
 demo=H+"""
#[derive(ULogData)]
pub struct Outer { x: f32 }
#[derive(ULogMessages)]
pub enum Messages { Outer(Outer), #[yule_log(forward_other)] Rest(UlogMessage) }
fn main() {
    let f = cat(&[hdr(), fmt("outer:uint64_t timestamp;float x;"), sub(128, 1, "outer"), data(1, &[1u8; 12])]);
    assert!(Messages::stream(&f[..]).unwrap().all(|r| matches!(r, Ok(Messages::Rest(_)))));
}
"""),
dict(id="c28-extend-replaces", prop="C28", edits=[(L,"                self.extra_allow_list.extend(subs.into_iter().map(Into::into));\n","                self.extra_allow_list = subs.into_iter().map(Into::into).collect();\n")],
 needs="extra names given in two steps, the last one as a list", breaks="the names given first are not allowed",
 demo=H+"""
#[derive(ULogData)]
pub struct Outer { x: f32 }
#[derive(ULogMessages)]
pub enum Messages { Outer(Outer), #[yule_log(forward_other)] Rest(UlogMessage) }
fn main() {
    let f = cat(&[hdr(), fmt("outer:uint64_t timestamp;float x;"), fmt("a:uint64_t timestamp;"), fmt("b:uint64_t timestamp;"), sub(0, 1, "a"), sub(0, 2, "b"), data(1, &[1u8; 8]), data(2, &[1u8; 8])]);
    let n = Messages::builder(&f[..]).add_subscription("a").unwrap().extend_subscriptions(["b"]).unwrap().stream().unwrap()
        .filter(|r| matches!(r, Ok(Messages::Rest(UlogMessage::LoggedData(_))))).count();
    assert_eq!(n, 2);
}
"""),
dict(id="c29-constant-parameter", prop="C29", edits=[(L,"""    if !input.generics.params.is_empty() || input.generics.where_clause.is_some() {
        return syn::Error::new_spanned(
            input.ident,
            "ULogData derive""","""    if input.generics.type_params().next().is_some()
        || input.generics.lifetimes().next().is_some()
        || input.generics.where_clause.is_some()
    {
        return syn::Error::new_spanned(
            input.ident,
            "ULogData derive""")],
 needs="a struct with a constant parameter that has a default", breaks="the generic struct is accepted; only its default instance is mapped", run='out=$(timeout 250 cargo check --offline 2>&1) && { echo "accepted"; exit 1; }\necho "$out" | grep -q "could not compile .demo."',
 prelude=False, demo="""#![allow(dead_code)]
#[derive(yule_log::ULogData)]
pub struct Outer<const N: usize = 1> { x: f32 }
fn main() {}
"""),
dict(id="c29-local-names", prop="C29", edits=[
 (L,"#name: match self.#idx_ident {\n                        None => None,\n                        Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(format.fields.get(idx)#missing_field)?)\n                    }","let #name = match self.#idx_ident {\n                        None => None,\n                        Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(format.fields.get(idx)#missing_field)?)\n                    };"),
 (L,"#name: <#ty as #from_field_path>::from_field(format.fields.get(self.#idx_ident)#missing_field)?","let #name = <#ty as #from_field_path>::from_field(format.fields.get(self.#idx_ident)#missing_field)?;"),
 (L,"""                Ok(#struct_name {
                    #( #get_data_fields ),*
                })""","""                #( #get_data_fields )*

                Ok(#struct_name {
                    #( #field_names ),*
                })"""),
 (L,"    let expanded = quote! {\n        #[doc = \"Represents","    let field_names: Vec<_> = fields.iter().map(|f| named_ident(f)).collect();\n\n    let expanded = quote! {\n        #[doc = \"Represents")],
 needs="a struct with a field named format that is not the last one", breaks="the generated code uses the field's value in place of its argument and does not compile", run="timeout 250 cargo check -q --offline",
 prelude=False, demo="""#![allow(dead_code)]
#[derive(yule_log::ULogData)]
pub struct Outer { format: f32, x: Option<f32>, y: u8 }
fn main() {}
"""),
dict(id="c35-empty-left-out", prop="C35", edits=[("core/src/parser.rs","""        let (message_type, message_buf) = match self.read_message_header()? {
            None => {""","""        let mut header = self.read_message_header()?;
        if matches!(header, Some(ref h) if h.msg_size == 0) {
            // There is nothing to report for a message without content.
            header = self.read_message_header()?;
        }

        let (message_type, message_buf) = match header {
            None => {""")], needs="a message with an empty body", breaks="the message is left out of the items, so the log that is written from them lacks it",
 demo="""
use yule_log::encode::Encode;
fn main() {
    let f = cat(&[hdr(), m(b'Z', &[]), m(b'Z', &[1, 2]), m(b'O', &[1, 0])]);
    let mut out = Vec::new();
    for r in full(&f) {
        r.unwrap().encode(&mut out).unwrap();
    }
    assert_eq!(out[..], f[f.len() - out.len()..]);
    assert!(out.len() >= f.len() - 16);
}
"""),
]
