EN="core/src/encode.rs"; PA="core/src/parser.rs"; MO="core/src/model.rs"
def A(id,checks,*e): return dict(id=id, edits=list(e), checks=checks)
def R(id,*e): return dict(id=id, edits=list(e), want="quiet", checks="C10 C11 C12 C24 C01 C21")
KEY="""        let mut key_bytes: Vec<u8> = self.r#type.encode_to_vec()?;
        key_bytes.push(b' ');
        key_bytes.extend_from_slice(self.key.as_bytes());

        writer.write_all(&[key_len(&key_bytes)?])?;
        writer.write_all(&key_bytes)?;
        self.value.encode(writer)?;
        Ok(())
    }
}

// ------------------------ msg::"""
MUTS=[
A("size-wrap","C11",(EN,"""                let msg_size = u16::try_from(content_buf.len()).map_err(|_| {
                    io::Error::new(io::ErrorKind::InvalidInput, "Message is too long to encode")
                })?;""","""                let msg_size = content_buf.len() as u16;""")),
A("key-wrap","C11",(EN,"""    u8::try_from(key_bytes.len())
        .map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "Key is too long to encode"))""","""    Ok(key_bytes.len().min(255) as u8)""")),
A("size-limit-off","C11",(EN,"u16::try_from(content_buf.len()).map_err(","u16::try_from(content_buf.len() + 1).map(|n| n - 1).map_err(")),
A("ignored-frame","C11",(EN,"            UlogMessage::Ignored { .. } => Ok(()),\n            other","            other")),
A("write-not-all","C11",(EN,"                writer.write_all(&content_buf)?;\n                Ok(())","                let _ = writer.write_all(&content_buf);\n                Ok(())")),
A("write-once","C11",(EN,"                writer.write_all(&content_buf)?;\n                Ok(())","                writer.write(&content_buf)?;\n                Ok(())")),
A("unhandled-known-only","C10 C12",(EN,"ULogMessageType::from(*msg_type)","match ULogMessageType::from(*msg_type) { ULogMessageType::UNKNOWN(b) if b >= 128 => ULogMessageType::UNKNOWN(b & 127), t => t }")),
A("sync-R-swap","C10 C12",(PA,"            ULogMessageType::REMOVE_SUBSCRIPTION => b'R',\n            ULogMessageType::SYNC => b'S',","            ULogMessageType::REMOVE_SUBSCRIPTION => b'R',\n            ULogMessageType::SYNC => b'R',")),
A("flag-offsets-be","C10",(EN,"        for offset in &self.appended_data_offsets {\n            writer.write_all(&offset.to_le_bytes())?;","        for offset in &self.appended_data_offsets {\n            writer.write_all(&offset.to_be_bytes())?;")),
A("flag-offsets-rev","C10",(EN,"for offset in &self.appended_data_offsets {","for offset in self.appended_data_offsets.iter().rev() {")),
A("flag-compat-twice","C10",(EN,"writer.write_all(&self.incompat_flags)?;","writer.write_all(&self.compat_flags)?;")),
A("sub-order","C10",(EN,"""        writer.write_all(&[self.multi_id])?;
        writer.write_all(&self.msg_id.to_le_bytes())?;
        writer""","""        writer.write_all(&self.msg_id.to_le_bytes())?;
        writer.write_all(&[self.multi_id])?;
        writer""")),
A("multi-flag-drop","C10",(EN,"        writer.write_all(&[self.is_continued as u8])?;","        writer.write_all(&[(!self.is_continued) as u8])?;")),
A("default-types-mask","C10",(EN,"writer.write_all(&[self.default_types])?;","writer.write_all(&[self.default_types & 3])?;")),
A("param-type-fixed","C10",(EN,"impl Encode for msg::Parameter {\n    fn encode<W: Write>(&self, writer: &mut W) -> io::Result<()> {\n        let mut key_bytes: Vec<u8> = self.r#type.encode_to_vec()?;","impl Encode for msg::Parameter {\n    fn encode<W: Write>(&self, writer: &mut W) -> io::Result<()> {\n        let mut key_bytes: Vec<u8> = self.r#type.base_type.encode_to_vec()?;")),
A("logstr-tag-zero","C10",(EN,"        if let Some(tag) = self.tag {","        if let Some(tag) = self.tag.filter(|t| *t != 0) {")),
A("logstr-ts-trunc","C10",(EN,"        writer.write_all(&self.timestamp.to_le_bytes())?;\n        writer.write_all(self.msg","        writer.write_all(&(self.timestamp as u32 as u64).to_le_bytes())?;\n        writer.write_all(self.msg")),
A("level-minus","C10",(EN,"        writer.write_all(&[self.level as u8])?;\n","        writer.write_all(&[(self.level as u8).min(b'6')])?;\n")),
A("tag-byte-same","C10",(EN,"UlogMessage::TaggedLoggedString(_) => ULogMessageType::LOGGING_TAGGED,","UlogMessage::TaggedLoggedString(_) => ULogMessageType::LOGGING,")),
A("info-multi-byte","C10",(EN,"UlogMessage::MultiInfo(_) => ULogMessageType::INFO_MULTIPLE,","UlogMessage::MultiInfo(i) => if i.is_continued { ULogMessageType::INFO_MULTIPLE } else { ULogMessageType::INFO },")),
A("fmt-sep","C10",(EN,"""        for field in &self.fields {
            field.encode(writer)?;
            writer.write_all(b";")?;
        }
        Ok(())""","""        for (i, field) in self.fields.iter().enumerate() {
            if i > 0 { writer.write_all(b";")?; }
            field.encode(writer)?;
        }
        Ok(())""")),
A("fmt-pad-drop","C10",(EN,"""        for field in &self.fields {
            field.encode(writer)?;
            writer.write_all(b";")?;""","""        for field in &self.fields {
            if field.name.starts_with("_padding") { continue; }
            field.encode(writer)?;
            writer.write_all(b";")?;""")),
A("type-one","C10",(EN,"        if let Some(array_size) = self.array_size {","        if let Some(array_size) = self.array_size.filter(|n| *n != 1) {")),
A("type-double","C10",("core/src/display.rs","def::BaseType::DOUBLE => write!(f, \"double\")","def::BaseType::DOUBLE => write!(f, \"float\")")),
A("i16-be","C10",(EN,"ScalarI16(v) => writer.write_all(&v.to_le_bytes()),","ScalarI16(v) => writer.write_all(&v.to_be_bytes()),")),
A("i8-abs","C10",(EN,"ScalarI8(v) => writer.write_all(&[*v as u8]),","ScalarI8(v) => writer.write_all(&[v.unsigned_abs()]),")),
A("f32-canon","C10",(EN,"ScalarF32(v) => writer.write_all(&v.to_le_bytes()),","ScalarF32(v) => writer.write_all(&(*v + 0.0).to_le_bytes()),")),
A("arr-i64","C10",(EN,"""            ArrayI64(arr) => {
                for v in arr {
                    writer.write_all(&v.to_le_bytes())?;""","""            ArrayI64(arr) => {
                for v in arr {
                    writer.write_all(&(*v as i32).to_le_bytes())?;""")),
A("arr-skip-last","C10",(EN,"""            ArrayBool(arr) => {
                for v in arr {""","""            ArrayBool(arr) => {
                for v in arr.iter().take(255) {""")),
A("arr-char-nul","C10",(EN,"std::slice::from_raw_parts(arr.as_ptr() as *const u8, arr.len())","std::slice::from_raw_parts(arr.as_ptr() as *const u8, arr.iter().position(|c| u8::from(*c) == 0).unwrap_or(arr.len()))")),
A("nested-first","C10",(EN,"                for fmt in arr {\n                    for sub_field in &fmt.fields {","                for fmt in arr.iter().skip(1).chain(arr.first()) {\n                    for sub_field in &fmt.fields {")),
A("data-skip-padding","C10",(EN,"""        for field in &self.fields {
            field.encode(writer)?;
        }
        Ok(())""","""        for field in &self.fields {
            if field.name.starts_with("_padding") { continue; }
            field.encode(writer)?;
        }
        Ok(())""")),
A("header-ver","C10",(MO,"            bytes.push(self.version);","            bytes.push(self.version.min(1));")),
A("param-i32","C10",(EN,"inst::ParameterValue::INT32(val) => writer.write_all(&val.to_le_bytes()),","inst::ParameterValue::INT32(val) => writer.write_all(&val.to_be_bytes()),")),
A("dropout-u8","C10",(EN,"writer.write_all(&self.duration.to_le_bytes())","writer.write_all(&[self.duration as u8, 0])")),
R("frame-one-buf",(EN,"""                writer.write_all(&msg_size.to_le_bytes())?;
                writer.write_all(&[u8::from(other.message_type())])?;
                writer.write_all(&content_buf)?;
                Ok(())""","""                let mut frame = Vec::with_capacity(content_buf.len() + 3);
                frame.extend_from_slice(&msg_size.to_le_bytes());
                frame.push(u8::from(other.message_type()));
                frame.extend_from_slice(&content_buf);
                writer.write_all(&frame)""")),
R("frame-len-check",(EN,"""                let msg_size = u16::try_from(content_buf.len()).map_err(|_| {
                    io::Error::new(io::ErrorKind::InvalidInput, "Message is too long to encode")
                })?;""","""                if content_buf.len() > usize::from(u16::MAX) {
                    return Err(io::Error::new(io::ErrorKind::InvalidInput, "Message is too long to encode"));
                }
                let msg_size = content_buf.len() as u16;""")),
R("frame-header-array",(EN,"""                writer.write_all(&msg_size.to_le_bytes())?;
                writer.write_all(&[u8::from(other.message_type())])?;""","""                let [lo, hi] = msg_size.to_le_bytes();
                writer.write_all(&[lo, hi, u8::from(other.message_type())])?;""")),
R("key-helper",(EN,"""// The length prefix of a key is a single byte.""","""fn write_key<W: Write>(ty: &def::TypeExpr, key: &str, writer: &mut W) -> io::Result<()> {
    let mut key_bytes: Vec<u8> = ty.encode_to_vec()?;
    key_bytes.push(b' ');
    key_bytes.extend_from_slice(key.as_bytes());
    writer.write_all(&[key_len(&key_bytes)?])?;
    writer.write_all(&key_bytes)
}

// The length prefix of a key is a single byte."""),(EN,KEY+"Parameter","""        write_key(&self.r#type, &self.key, writer)?;
        self.value.encode(writer)
    }
}

// ------------------------ msg::Parameter"""),(EN,KEY+"DefaultParameter","""        write_key(&self.r#type, &self.key, writer)?;
        self.value.encode(writer)
    }
}

// ------------------------ msg::DefaultParameter""")),
R("key-format",(EN,KEY+"Parameter","""        let key = format!("{} {}", self.r#type, self.key);
        let key_bytes = key.into_bytes();
        writer.write_all(&[key_len(&key_bytes)?])?;
        writer.write_all(&key_bytes)?;
        self.value.encode(writer)
    }
}

// ------------------------ msg::Parameter""")),
R("fmt-try-for-each",(EN,"""        for field in &self.fields {
            field.encode(writer)?;
        }
        Ok(())""","""        self.fields.iter().try_for_each(|field| field.encode(writer))""")),
R("arr-flat",(EN,"""            ArrayU16(arr) => {
                for v in arr {
                    writer.write_all(&v.to_le_bytes())?;
                }
                Ok(())
            }""","""            ArrayU16(arr) => {
                let bytes: Vec<u8> = arr.iter().flat_map(|v| v.to_le_bytes()).collect();
                writer.write_all(&bytes)
            }""")),
R("arr-buffer",(EN,"""            ArrayU32(arr) => {
                for v in arr {
                    writer.write_all(&v.to_le_bytes())?;
                }
                Ok(())
            }""","""            ArrayU32(arr) => {
                let mut bytes = Vec::with_capacity(arr.len() * 4);
                for v in arr {
                    bytes.extend_from_slice(&v.to_le_bytes());
                }
                writer.write_all(&bytes)
            }""")),
R("arr-index",(EN,"""            ArrayU64(arr) => {
                for v in arr {
                    writer.write_all(&v.to_le_bytes())?;
                }
                Ok(())
            }""","""            ArrayU64(arr) => {
                for i in 0..arr.len() {
                    writer.write_all(&arr[i].to_le_bytes())?;
                }
                Ok(())
            }""")),
R("arr-bool-map",(EN,"""            ArrayBool(arr) => {
                for v in arr {
                    writer.write_all(&[*v as u8])?;
                }
                Ok(())
            }""","""            ArrayBool(arr) => {
                let bytes: Vec<u8> = arr.iter().map(|v| u8::from(*v)).collect();
                writer.write_all(&bytes)
            }""")),
R("arr-i8-helper",(EN,"""            ArrayI8(arr) => {
                for v in arr {
                    writer.write_all(&[*v as u8])?;
                }
                Ok(())
            }""","""            ArrayI8(arr) => write_each(arr, writer, |v| v.to_le_bytes()),"""),(EN,"// The length prefix of a key is a single byte.","""fn write_each<T: Copy, const N: usize, W: Write>(
    items: &[T],
    writer: &mut W,
    to_bytes: impl Fn(T) -> [u8; N],
) -> io::Result<()> {
    for item in items {
        writer.write_all(&to_bytes(*item))?;
    }
    Ok(())
}

// The length prefix of a key is a single byte.""")),
R("type-write-fmt",(EN,"""            writer.write_all(b"[")?;
            writer.write_all(array_size.to_string().as_bytes())?;
            writer.write_all(b"]")?;""","""            write!(writer, "[{}]", array_size)?;""")),
R("type-format",(EN,"""            writer.write_all(b"[")?;
            writer.write_all(array_size.to_string().as_bytes())?;
            writer.write_all(b"]")?;""","""            let suffix = format!("[{array_size}]");
            writer.write_all(suffix.as_bytes())?;""")),
R("offsets-index",(EN,"""        for offset in &self.appended_data_offsets {
            writer.write_all(&offset.to_le_bytes())?;
        }""","""        for i in 0..self.appended_data_offsets.len() {
            let offset = self.appended_data_offsets[i];
            writer.write_all(&offset.to_le_bytes())?;
        }""")),
R("tag-match",(EN,"""        if let Some(tag) = self.tag {
            writer.write_all(&tag.to_le_bytes())?;
        }
""","""        match self.tag {
            Some(tag) => writer.write_all(&tag.to_le_bytes())?,
            None => {}
        }
""")),
R("sub-buffer",(EN,"""        writer.write_all(&[self.multi_id])?;
        writer.write_all(&self.msg_id.to_le_bytes())?;
        writer.write_all(self.message_name.as_bytes())?;
        Ok(())""","""        let id = self.msg_id.to_le_bytes();
        writer.write_all(&[self.multi_id, id[0], id[1]])?;
        writer.write_all(self.message_name.as_bytes())""")),
R("nested-via-format",(EN,"""                for fmt in arr {
                    for sub_field in &fmt.fields {
                        sub_field.encode(writer)?;
                    }
                }
                Ok(())""","""                for fmt in arr {
                    fmt.encode(writer)?;
                }
                Ok(())""")),
R("header-array",(MO,"""            let mut bytes = Vec::with_capacity(16);

            bytes.extend_from_slice(&MAGIC);
            bytes.push(self.version);
            bytes.extend_from_slice(&self.timestamp.to_le_bytes());

            bytes""","""            let mut bytes = MAGIC.to_vec();
            bytes.push(self.version);
            bytes.extend(self.timestamp.to_le_bytes());
            bytes""")),
R("content-match-early",(EN,"""            UlogMessage::Ignored { .. } => Ok(()),
            other => {""","""            UlogMessage::Ignored { .. } => {
                log::trace!("ignored message skipped");
                Ok(())
            }
            other => {""")),
]
