L="macros/src/lib.rs"; U="core/src/macro_utils.rs"
def R(id,*e): return dict(id=id, edits=list(e), want="quiet", checks="C25 C26")
def M(id,*e): return dict(id=id, edits=list(e), want="alarm", checks="C25 C26")
MUTS=[
M("ff-default",(L,"missing.push(#ulog_name);\n                            0","0")),
M("ff-first-only",(L,'missing.join(", ")','missing.first().copied().unwrap_or_default()')),
M("ff-pos-off",(L,".map(|(i, f)| (f.name.clone(), i))",".map(|(i, f)| (f.name.clone(), i + 1))")),
M("ff-skip-one",(L,"format.fields.iter().enumerate()\n","format.fields.iter().enumerate().skip(1)\n")),
M("ff-skip-pad",(L,"format.fields.iter().enumerate()\n                        .map","format.fields.iter().filter(|f| !f.name.starts_with(\"_padding\")).enumerate()\n                        .map")),
M("ff-ident",(L,"attr.field_name\n                    .unwrap_or_else(|| named_ident(f).unraw().to_string())","attr.field_name\n                    .unwrap_or_else(|| named_ident(f).to_string())")),
M("ff-noattr",(L,"attr.field_name\n                    .unwrap_or_else(|| named_ident(f).unraw().to_string())","attr.field_name.filter(|n| !n.contains(' '))\n                    .unwrap_or_else(|| named_ident(f).unraw().to_string())")),
M("ff-lower",(L,"attr.field_name\n                    .unwrap_or_else(|| named_ident(f).unraw().to_string())","attr.field_name\n                    .unwrap_or_else(|| named_ident(f).unraw().to_string()).to_snake_case()")),
M("gd-opt-ok",(L,"Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(format.fields.get(idx)#missing_field)?)","Some(idx) => <#inner_ty as #from_field_path>::from_field(format.fields.get(idx)#missing_field).ok()")),
M("gd-opt-short",(L,"Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(format.fields.get(idx)#missing_field)?)","Some(idx) => match format.fields.get(idx) { None => None, Some(x) => Some(<#inner_ty as #from_field_path>::from_field(x)?) }")),
M("gd-err",(L,"#name: <#ty as #from_field_path>::from_field(format.fields.get(self.#idx_ident)#missing_field)?","#name: <#ty as #from_field_path>::from_field(format.fields.get(self.#idx_ident)#missing_field).map_err(|_| yule_log::errors::ULogError::InvalidFieldName(stringify!(#name).to_string()))?")),
M("ff-opt-first",(L,"#idx_ident: map.get(#ulog_name).copied()\n","#idx_ident: map.get(#ulog_name).copied().filter(|i| *i != 0)\n")),
M("fs-u8-bool",(U,"impl_fromfield_scalar!(bool, ScalarBool);","impl FromField for bool { fn from_field(field: &inst::Field) -> Result<Self, ULogError> { match &field.value { inst::FieldValue::ScalarBool(v) => Ok(*v), inst::FieldValue::ScalarU8(v) => Ok(*v != 0), other => Err(ULogError::TypeMismatch(format!(\"{other:?}\"))) } } }")),
M("fs-i16-wide",(U,"impl_fromfield_scalar!(i32, ScalarI32);","impl FromField for i32 { fn from_field(field: &inst::Field) -> Result<Self, ULogError> { match &field.value { inst::FieldValue::ScalarI32(v) => Ok(*v), inst::FieldValue::ScalarI16(v) => Ok(i32::from(*v)), other => Err(ULogError::TypeMismatch(format!(\"{other:?}\"))) } } }")),
M("fs-swap",(U,"impl_fromfield_array!(u8, ArrayU8);","impl FromField for Vec<u8> { fn from_field(field: &inst::Field) -> Result<Self, ULogError> { match &field.value { inst::FieldValue::ArrayU8(v) => Ok(v.clone()), inst::FieldValue::ArrayChar(v) => Ok(v.iter().map(|c| c.0 as u8).collect()), other => Err(ULogError::TypeMismatch(format!(\"{other:?}\"))) } } }")),
M("fa-trim",(U,"inst::FieldValue::$variant(v) => Ok(v.clone()),","inst::FieldValue::$variant(v) => Ok(v.iter().take(256).cloned().collect()),")),
M("fa-empty",(U,"inst::FieldValue::$variant(v) => Ok(v.clone()),","inst::FieldValue::$variant(v) if !v.is_empty() => Ok(v.clone()),")),
M("nested-first",(U,"results.push(accessor.get_data(fmt)?);","results.push(accessor.get_data(&formats[0])?); let _ = fmt;")),
M("nested-rev",(U,"for fmt in formats {\n                    results","for fmt in formats.iter().rev() {\n                    results")),
M("nested-skip-err",(U,"results.push(accessor.get_data(fmt)?);","if let Ok(x) = accessor.get_data(fmt) { results.push(x); }")),
M("nested-one",(U,"_ => Err(ULogError::TypeMismatch(format!(\n                \"expected a nested struct","inst::FieldValue::ArrayOther(v) if v.len() == 1 => { let accessor = T::from_format(&v[0].def_format)?; accessor.get_data(&v[0]) }\n            _ => Err(ULogError::TypeMismatch(format!(\n                \"expected a nested struct")),
M("nested-arr-one",(U,"            _ => Err(ULogError::TypeMismatch(format!(\n                \"expected array for","            inst::FieldValue::ScalarOther(v) => { let accessor = T::from_format(&v.def_format)?; Ok(vec![accessor.get_data(v)?]) }\n            _ => Err(ULogError::TypeMismatch(format!(\n                \"expected array for")),
M("nested-err-kind",(U,"_ => Err(ULogError::TypeMismatch(format!(\n                \"expected a nested struct","_ => Err(ULogError::InvalidFieldName(format!(\n                \"expected a nested struct")),
R("nested-collect",(U,"""                let mut results = ::std::vec::Vec::with_capacity(formats.len());
                let accessor = T::from_format(&formats[0].def_format)?;
                for fmt in formats {
                    results.push(accessor.get_data(fmt)?);
                }
                Ok(results)""","""                let accessor = T::from_format(&formats[0].def_format)?;
                formats.iter().map(|fmt| accessor.get_data(fmt)).collect()""")),
R("nested-iflet",(U,"""                if formats.is_empty() {
                    return Ok(::std::vec::Vec::new());
                }
                let mut results = ::std::vec::Vec::with_capacity(formats.len());
                let accessor = T::from_format(&formats[0].def_format)?;
""","""                let mut results = ::std::vec::Vec::new();
                let Some(first) = formats.first() else { return Ok(results) };
                let accessor = T::from_format(&first.def_format)?;
""")),
R("fs-iflet",(U,"""                match &field.value {
                    inst::FieldValue::$variant(v) => Ok(*v),
                    other => Err(ULogError::TypeMismatch(format!(
                        "Expected {} but got {:?}",
                        stringify!($ty),
                        other
                    ))),
                }""","""                if let inst::FieldValue::$variant(v) = field.value {
                    return Ok(v);
                }
                Err(type_mismatch(stringify!($ty), &field.value))"""),(U,"// --- Scalars ---","fn type_mismatch(expected: &str, v: &inst::FieldValue) -> ULogError {\n    ULogError::TypeMismatch(format!(\"Expected {} but got {:?}\", expected, v))\n}\n\n// --- Scalars ---")),
R("fa-tovec",(U,"inst::FieldValue::$variant(v) => Ok(v.clone()),","inst::FieldValue::$variant(v) => Ok(v.iter().copied().collect::<Vec<_>>()),")),
R("ff-position",(L,"""                    #idx_ident: match map.get(#ulog_name) {
                        Some(&idx) => idx,""","""                    #idx_ident: match format.fields.iter().position(|f| &*f.name == #ulog_name) {
                        Some(idx) => idx,""")),
R("ff-loop-map",(L,"""                let map: std::collections::HashMap<::yule_log::model::Shared<str>, usize> =
                    format.fields.iter().enumerate()
                        .map(|(i, f)| (f.name.clone(), i))
                        .collect();
""","""                let mut map: std::collections::HashMap<::yule_log::model::Shared<str>, usize> = std::collections::HashMap::new();
                for (i, f) in format.fields.iter().enumerate() {
                    map.insert(f.name.clone(), i);
                }
""")),
R("ff-str-map",(L,"""                let map: std::collections::HashMap<::yule_log::model::Shared<str>, usize> =
                    format.fields.iter().enumerate()
                        .map(|(i, f)| (f.name.clone(), i))
                        .collect();
""","""                let map: std::collections::BTreeMap<&str, usize> =
                    format.fields.iter().enumerate()
                        .map(|(i, f)| (&*f.name, i))
                        .collect();
""")),
R("ff-iflet",(L,"""                    #idx_ident: match map.get(#ulog_name) {
                        Some(&idx) => idx,
                        None => {
                            // If not found add to missing list to report an error later.
                            // Index is set to 0, but will never be used.
                            missing.push(#ulog_name);
                            0
                        }
                    }""","""                    #idx_ident: map.get(#ulog_name).copied().unwrap_or_else(|| {
                        missing.push(#ulog_name);
                        0
                    })""")),
R("ff-err-first",(L,"""                if !missing.is_empty() {
                    return Err(""","""                if missing.len() > 0 {
                    return Err(""")),
R("gd-let",(L,"""                    #name: match self.#idx_ident {
                        None => None,
                        Some(idx) => Some(<#inner_ty as #from_field_path>::from_field(format.fields.get(idx)#missing_field)?)
                    }""","""                    #name: self.#idx_ident
                        .map(|idx| -> Result<#inner_ty, yule_log::errors::ULogError> {
                            <#inner_ty as #from_field_path>::from_field(format.fields.get(idx)#missing_field)
                        })
                        .transpose()?""")),
]
