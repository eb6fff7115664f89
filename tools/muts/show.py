MO="core/src/model.rs"; DI="core/src/display.rs"
def R(id,*e): return dict(id=id, edits=list(e), want="quiet", checks="C32 C33")
def M(id,*e): return dict(id=id, edits=list(e), want="alarm", checks="C32 C33")
MUTS=[
M("ts-skip",(MO,"ArrayF32(v) => Some(v.iter().map(","ArrayF32(v) => Some(v.iter().skip(1).map(")),
M("ts-rev",(MO,"ArrayI64(v) => Some(v.iter().map(","ArrayI64(v) => Some(v.iter().rev().map(")),
M("ts-take",(MO,"ArrayChar(v) => Some(v.iter().map(","ArrayChar(v) => Some(v.iter().take(100).map(")),
M("ts-filter",(MO,"ArrayChar(v) => Some(v.iter().map(","ArrayChar(v) => Some(v.iter().filter(|c| c.0 != 0).map(")),
M("ts-kind",(MO,"ArrayU8(v) => Some(v.iter().map(|&x| ScalarU8(x)).collect())","ArrayU8(v) => Some(v.iter().map(|&x| ScalarU16(u16::from(x))).collect())")),
M("ts-val",(MO,"map(|&x| ScalarI8(x))","map(|&x| ScalarI8(x.saturating_abs()))")),
M("ts-none",(MO,"            ArrayBool(v) => Some(v.iter().map(|&x| ScalarBool(x)).collect()),\n","")),
M("ts-empty-none",(MO,"ArrayU64(v) => Some","ArrayU64(v) if !v.is_empty() => Some")),
M("fl-dup",(MO,"flattened.extend(self.flatten_data_type(current_path, &field.value));","flattened.extend(self.flatten_data_type(current_path.clone(), &field.value)); if field.name == self.name { flattened.extend(self.flatten_data_type(current_path, &field.value)); }")),
M("fl-skip",(MO,"for field in &self.fields {\n            let current_path","for field in self.fields.iter().filter(|f| !f.name.is_empty()) {\n            let current_path")),
M("fl-prefix",(MO,"nested_format.flatten_sub(&path)","nested_format.flatten_sub(&nested_format.name)")),
M("fl-index",(MO,"{current_path}.{index:02}","{current_path}")),
M("fl-take",(MO,"vec_of_scalars.into_iter().enumerate()","vec_of_scalars.into_iter().take(100).enumerate()")),
M("fl-sep",(MO,'format!("{}/{}", path, field.name)','format!("{}{}", path, field.name)')),
M("fl-nest",(MO,"""                // Recursively flatten nested DataFormat
                nested_format.flatten_sub(&path)""","""                let mut v = nested_format.flatten_sub(&path);
                v.truncate(100);
                v""")),
R("fl-inline",(MO,"""            if field.r#type.is_scalar() {
                flattened.extend(self.flatten_data_type(current_path, &field.value));
            } else {
                let vec_of_scalars = field.value.to_scalars().unwrap();

                for (index, value) in vec_of_scalars.into_iter().enumerate() {
                    let array_path = format!("{current_path}.{index:02}");
                    flattened.extend(self.flatten_data_type(array_path, &value));
                }
            }
""","""            if !field.r#type.is_scalar() {
                for (index, value) in field.value.to_scalars().unwrap().iter().enumerate() {
                    flattened.append(&mut self.flatten_data_type(format!("{current_path}.{index:02}"), value));
                }
                continue;
            }
            flattened.append(&mut self.flatten_data_type(current_path, &field.value));
""")),
R("fl-match",(MO,"""                let vec_of_scalars = field.value.to_scalars().unwrap();

                for (index""","""                let vec_of_scalars = match field.value.to_scalars() { Some(v) => v, None => unreachable!() };

                for (index""")),
R("fl-iflet",(MO,"""        use inst::FieldValue::*;
        match value {
            ScalarOther(nested_format) => {
                // Recursively flatten nested DataFormat
                nested_format.flatten_sub(&path)
            }
            _ => {
                // For any other scalar data type, just append the path and the data type
                vec![(path, value.clone())]
            }
        }""","""        let mut out = Vec::new();
        if let inst::FieldValue::ScalarOther(nested_format) = value {
            out.extend(nested_format.flatten_sub(&path));
        } else {
            out.push((path, value.clone()));
        }
        out""")),
R("ts-fnptr",(MO,"map(|&x| ScalarU16(x)).collect()","copied().map(ScalarU16).collect()")),
R("ts-loop",(MO,"ArrayU32(v) => Some(v.iter().map(|&x| ScalarU32(x)).collect()),","ArrayU32(v) => { let mut out = Vec::with_capacity(v.len()); for x in v { out.push(ScalarU32(*x)); } Some(out) }")),

M("sh-f32",(DI,"FieldValue::ScalarF32(v) => write!(f, \"{v}\")","FieldValue::ScalarF32(v) => write!(f, \"{v:.3}\")")),
M("sh-f64e",(DI,"FieldValue::ScalarF64(v) => write!(f, \"{v}\")","FieldValue::ScalarF64(v) => write!(f, \"{v:.6e}\")")),
M("sh-cast",(DI,"FieldValue::ScalarU64(v) => write!(f, \"{v}\")","FieldValue::ScalarU64(v) => write!(f, \"{}\", *v as i64)")),
M("sh-cast2",(DI,"FieldValue::ScalarI8(v) => write!(f, \"{v}\")","FieldValue::ScalarI8(v) => write!(f, \"{}\", *v as u8)")),
M("sh-f64-f32",(DI,"FieldValue::ScalarF64(v) => write!(f, \"{v}\")","FieldValue::ScalarF64(v) => write!(f, \"{}\", *v as f32)")),
M("arr-skip",(DI,"        .iter()\n        .map(std::string","        .iter()\n        .take(64)\n        .map(std::string")),
M("arr-rev",(DI,"        .iter()\n        .map(std::string","        .iter()\n        .rev()\n        .map(std::string")),
M("arr-dedup",(DI,"""        .collect::<Vec<_>>()
        .join(", ");
    write""","""        .filter(|s| s != "0")
        .collect::<Vec<_>>()
        .join(", ");
    write""")),
M("other-arr",(DI,"arr.iter().map(|f| format!","arr.iter().skip(1).map(|f| format!")),
M("multi-hex",(DI,"""impl fmt::Display for msg::MultiInfo {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "{}: ", self.key)?;

        match &self.value {
            // Scalars
            FieldValue::ScalarU8(val) => write!(f, "{val}")?,
            FieldValue::ScalarU16(val) => write!(f, "{val}")?,
            FieldValue::ScalarU32(val) => {
                if self.key.starts_with("ver_")""","""impl fmt::Display for msg::MultiInfo {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "{}: ", self.key)?;

        match &self.value {
            // Scalars
            FieldValue::ScalarU8(val) => write!(f, "{val}")?,
            FieldValue::ScalarU16(val) => write!(f, "{val}")?,
            FieldValue::ScalarU32(val) => {
                if self.key.starts_with("ver")""")),
M("char-trim",(DI,r"""let s: String = arr.to_string_lossy();
                write!(f, "\"{s}\"")
""",r"""let s: String = arr.to_string_lossy();
                write!(f, "\"{}\"", s.trim_end_matches(' '))
""")),
M("info-char",(DI,r"""                let s: String = arr.to_string_lossy();
                write!(f, "\"{s}\"")?;
""",r"""                let s: String = arr[..arr.len().min(255)].to_vec().to_string_lossy();
                write!(f, "\"{s}\"")?;
""")),
M("bits-swap",(MO,"self.default_types & DEFAULT_TYPE_SYSTEM_WIDE","self.default_types & DEFAULT_TYPE_CONFIGURATION"),(MO,"configuration: self.default_types & DEFAULT_TYPE_CONFIGURATION","configuration: self.default_types & DEFAULT_TYPE_SYSTEM_WIDE")),
M("name-typo",(DI,'UINT16 => write!(f, "uint16_t")','UINT16 => write!(f, "uint16")')),
M("size-one",(DI,"write!(f, \"{}[{}]\", self.base_type, array_size)","if array_size == 1 { write!(f, \"{}\", self.base_type) } else { write!(f, \"{}[{}]\", self.base_type, array_size) }")),
M("dflt-else",(DI,"        if default_type.configuration {","        else if default_type.configuration {")),
R("sh-deleg",(DI,"FieldValue::ScalarU8(v) => write!(f, \"{v}\")","FieldValue::ScalarU8(v) => v.fmt(f)"),(DI,"FieldValue::ScalarF32(v) => write!(f, \"{v}\")","FieldValue::ScalarF32(v) => fmt::Display::fmt(v, f)")),
R("sh-tostring",(DI,"FieldValue::ScalarI64(v) => write!(f, \"{v}\")","FieldValue::ScalarI64(v) => f.write_str(&v.to_string())")),
R("arr-loop",(DI,"""    let s = arr
        .iter()
        .map(std::string::ToString::to_string)
        .collect::<Vec<_>>()
        .join(", ");
    write!(f, "[{s}]")""","""    f.write_str("[")?;
    for (i, v) in arr.iter().enumerate() {
        if i > 0 {
            f.write_str(", ")?;
        }
        write!(f, "{v}")?;
    }
    f.write_str("]")""")),
R("arr-loop2",(DI,"""    let s = arr
        .iter()
        .map(std::string::ToString::to_string)
        .collect::<Vec<_>>()
        .join(", ");
    write!(f, "[{s}]")""","""    let mut s = String::new();
    for v in arr {
        if !s.is_empty() {
            s.push_str(", ");
        }
        s += &v.to_string();
    }
    write!(f, "[{s}]")""")),
R("arr-first",(DI,"""    let s = arr
        .iter()
        .map(std::string::ToString::to_string)
        .collect::<Vec<_>>()
        .join(", ");
    write!(f, "[{s}]")""","""    write!(f, "[")?;
    let mut sep = "";
    for v in arr {
        write!(f, "{sep}{v}")?;
        sep = ", ";
    }
    write!(f, "]")""")),
R("names-str",(DI,"""        match self {
            def::BaseType::UINT8 => write!(f, "uint8_t"),""","""        match self {
            def::BaseType::UINT8 => f.write_str("uint8_t"),""")),
R("type-iflet",(DI,"""        match self.array_size {
            None => {
                write!(f, "{}", self.base_type)
            }
            Some(array_size) => {
                write!(f, "{}[{}]", self.base_type, array_size)
            }
        }""","""        write!(f, "{}", self.base_type)?;
        if let Some(array_size) = self.array_size {
            write!(f, "[{array_size}]")?;
        }
        Ok(())""")),
R("dflt-vec",(DI,"""        let mut default_type_str = String::with_capacity(25);

        if default_type.system_wide {
            default_type_str.push_str("SystemWide");
        }
        if default_type.configuration {
            if !default_type_str.is_empty() {
                default_type_str.push('|');
            }
            default_type_str.push_str("Configuration");
        }
""","""        let default_type_str = match (default_type.system_wide, default_type.configuration) {
            (true, true) => "SystemWide|Configuration",
            (true, false) => "SystemWide",
            (false, true) => "Configuration",
            (false, false) => "",
        };
""")),
R("info-share",(DI,"""impl fmt::Display for msg::Info {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        write!(f, "{}: ", self.key)?;

        match &self.value {
            // Scalars
            FieldValue::ScalarU8(val) => write!(f, "{val}")?,""","""impl fmt::Display for msg::Info {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        let key = &self.key;
        write!(f, "{key}: ")?;

        match &self.value {
            // Scalars
            FieldValue::ScalarU8(val) => fmt::Display::fmt(val, f)?,"""),(DI,"""                if self.key.starts_with("ver_") && self.key.ends_with("_release") {
                    write!(f, "{val:#X}")?;
                } else {
                    write!(f, "{val}")?;
                }""","""                let release = self.key.starts_with("ver_") && self.key.ends_with("_release");
                if !release {
                    write!(f, "{val}")?;
                } else {
                    write!(f, "0x{val:X}")?;
                }""")),
]
