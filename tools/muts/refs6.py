# behaviour-preserving rewrites of what the macros generate and of their guards
L="macros/src/lib.rs"; U="macros/src/utils.rs"
def R(id, *e, **k): return dict(id=id, edits=list(e), want="quiet", checks=k.get("checks","C25 C26 C27 C28 C29 C30 C32 C33"))
MUTS=[
R("opt-map",(L,'''                    #name: match self.#idx_ident {
                        None => None,
                        Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(format.fields.get(idx)#missing_field)?)
                    }''','''                    #name: if let Some(idx) = self.#idx_ident {
                        let field = format.fields.get(idx)#missing_field;
                        Some(<#inner_ty as #from_field_path>::from_field(field)?)
                    } else {
                        None
                    }''')),
R("missing-iflet",(L,'''                    #idx_ident: match map.get(#ulog_name) {
                        Some(&idx) => idx,
                        None => {
                            // If not found add to missing list to report an error later.
                            // Index is set to 0, but will never be used.
                            missing.push(#ulog_name);
                            0
                        }
                    }''','''                    #idx_ident: if let Some(idx) = map.get(#ulog_name) {
                        *idx
                    } else {
                        missing.push(#ulog_name);
                        0
                    }''')),
R("map-loop",(L,'''                    format.fields.iter().enumerate()
                        .map(|(i, f)| (f.name.clone(), i))
                        .collect();
''','''                    {
                        let mut map = std::collections::HashMap::with_capacity(format.fields.len());
                        for (i, f) in format.fields.iter().enumerate() {
                            map.insert(f.name.clone(), i);
                        }
                        map
                    };
''')),
R("missing-early",(L,'''                if !missing.is_empty() {
                    return Err(yule_log::errors::ULogError::InvalidFieldName(
                        format!(
                            "The following fields were not found in subscription `{}`: {}",
                            #subscription,
                            missing.join(", ")
                        )
                    ));
                } else {
                    return Ok(result);
                }''','''                if missing.is_empty() {
                    return Ok(result);
                }
                let names = missing.join(", ");
                return Err(yule_log::errors::ULogError::InvalidFieldName(
                    format!("The following fields were not found in subscription `{}`: {names}", #subscription)
                ));''')),
R("sub-question",(L,'''                    let acc = match <#ty as yule_log::macro_utils::ULogAccessorFactory>::from_format(&format) {
                        Ok(a) => a,
                        Err(e) => return Some(Err(e)),
                    };

                    self.subs.insert(
                        sub.msg_id,
                        #accessor_enum_name::#var(acc),
                    );''','''                    match <#ty as yule_log::macro_utils::ULogAccessorFactory>::from_format(&format) {
                        Ok(acc) => {
                            let entry = #accessor_enum_name::#var(acc);
                            self.subs.insert(sub.msg_id, entry);
                        }
                        Err(e) => return Some(Err(e)),
                    }''')),
R("data-match",(L,'''yule_log::macro_utils::ULogAccessor::get_data(a, &data.data).map(|v| #enum_name::#var(v))''','''match yule_log::macro_utils::ULogAccessor::get_data(a, &data.data) {
                    Ok(v) => Ok(#enum_name::#var(v)),
                    Err(e) => Err(e),
                }''')),
R("opt-type-match",(U,'''            if *ident == "Option" {
                if let PathArguments::AngleBracketed(ref args) = arguments {
                    if let Some(GenericArgument::Type(inner_ty)) = args.args.first() {
                        return Some(inner_ty);
                    }
                }
            }''','''            if ident != "Option" {
                return None;
            }
            if let PathArguments::AngleBracketed(args) = arguments {
                return match args.args.first() {
                    Some(GenericArgument::Type(inner_ty)) => Some(inner_ty),
                    _ => None,
                };
            }''')),
]
