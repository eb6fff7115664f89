P="core/src/parser.rs"
def m(id, old, new, want="alarm", f=P): return dict(id=id, edits=[(f, old, new)], want=want, checks="C38")
MUTS=[
m("q-array-inv", "let default_types = message_buf.take_u8()?; // read the default_types bitfield\n        let key_len = message_buf.take_u8()? as usize;\n        let raw_key = String::from_utf8(message_buf.advance(key_len)?.to_vec())?;\n        let field = parse_key(&raw_key)?;\n\n        if field.r#type.is_array() {", "let default_types = message_buf.take_u8()?; // read the default_types bitfield\n        let key_len = message_buf.take_u8()? as usize;\n        let raw_key = String::from_utf8(message_buf.advance(key_len)?.to_vec())?;\n        let field = parse_key(&raw_key)?;\n\n        if !field.r#type.is_array() {"),
m("i-key-127", "pub(crate) fn parse_info(&self, mut message_buf: MessageBuf) -> Result<msg::Info, ULogError> {\n        let key_len = message_buf.take_u8()? as usize;", "pub(crate) fn parse_info(&self, mut message_buf: MessageBuf) -> Result<msg::Info, ULogError> {\n        let key_len = message_buf.take_u8()? as usize;\n        if key_len > 127 {\n            return Err(ULogError::ParseError(\"key too long\".into()));\n        }"),
m("b-len", "if message_buf.len() != 40 {\n", "if message_buf.len() != 40 || message_buf.len() % 16 != 0 {\n            return Err(ULogError::ParseError(\"flag bits\".into()));\n        }\n        if message_buf.len() != 40 {\n"),
m("b-compat", "            || incompat_flags.iter().skip(1).any(|&f| f != 0);", "            || incompat_flags.iter().skip(1).any(|&f| f != 0)\n            || compat_flags[7] & 0x80 != 0;"),
m("o-len", "            ULogMessageType::DROPOUT => Ok(", "            ULogMessageType::DROPOUT if message_buf.len() < 3 => Err(ULogError::ParseError(\"x\".into())),\n            ULogMessageType::DROPOUT => Ok("),
m("level-0", "                b'0' => Ok(LogLevel::Emerg),\n", "", f="core/src/model.rs"),
m("sub-name", "let message_name = String::from_utf8(message_buf.into_remaining_bytes())?;", "let message_name = String::from_utf8(message_buf.into_remaining_bytes())?;\n        if message_name.len() > 64 {\n            return Err(ULogError::ParseError(\"name\".into()));\n        }"),
m("bool-strict", "    pub fn take_bool(&mut self) -> Result<bool, ULogError> {", "    pub fn take_bool(&mut self) -> Result<bool, ULogError> {\n        if self.len() > 0 && self.buf[self.current_index] > 1 {\n            return Err(ULogError::ParseError(\"bool\".into()));\n        }", f="core/src/message_buf.rs"),
m("unknown-size", "                log::warn!(\"Unknown message type: 0x{byte:02X}\");\n", "                if message_buf.len() > 4096 {\n                    return Err(ULogError::ParseError(\"unknown\".into()));\n                }\n                log::warn!(\"Unknown message type: 0x{byte:02X}\");\n"),
m("param-left", "            log::debug!(\"INFO {:?} {}:\\t{:?}\", field.r#type, &field.name, value);\n\n            Ok(msg::Parameter {", "            if !message_buf.is_empty() {\n                return Err(ULogError::ParseError(\"left\".into()));\n            }\n            Ok(msg::Parameter {"),
m("sub-multi", "        let multi_id = message_buf.take_u8()?;", "        let multi_id = message_buf.take_u8()?;\n        if multi_id > 200 {\n            return Err(ULogError::ParseError(\"multi id\".into()));\n        }"),
m("info-num", "INT8 => ScalarI8(parse_data_field(message_buf)?)", "INT8 if message_buf.len() > 1 => ScalarI8(parse_data_field(message_buf)?),\n                    INT8 => return Err(ULogError::ParseError(\"i8\".into()))"),
m("m-cont", "let is_continued = message_buf.take_u8()? != 0;", "let is_continued = match message_buf.take_u8()? {\n            0 => false,\n            1 => true,\n            other => return Err(ULogError::ParseError(format!(\"bad flag {other}\"))),\n        };"),
]
