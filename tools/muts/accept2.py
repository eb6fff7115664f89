P="core/src/parser.rs"
def m(id, old, new, want="alarm", f=P): return dict(id=id, edits=[(f, old, new)], want=want, checks="C38")
ERR='return Err(ULogError::ParseError("x".to_string()));'
SUBN="        let _format = self.get_format(&message_name)?;\n"
MUTS=[
m("dup-sub", SUBN, SUBN+"        if self.subscriptions.contains_key(&msg_id) {\n            "+ERR+"\n        }\n"),
m("dup-name", SUBN, SUBN+"        if multi_id == 0 && self.subscriptions.values().any(|s| s.message_name == message_name) {\n            "+ERR+"\n        }\n"),
m("remove-unknown", "                self.subscriptions.remove(&msg_id);", "                if self.subscriptions.remove(&msg_id).is_none() {\n                    "+ERR+"\n                }"),
m("q-bits", "let default_types = message_buf.take_u8()?; // read", "let default_types = message_buf.take_u8()?;\n        if default_types & 3 == 0 {\n            "+ERR+"\n        }\n        // read"),
m("b-offsets", "        Ok(FlagBits {\n", "        if appended_data_offsets[0] > appended_data_offsets[1] && appended_data_offsets[1] != 0 {\n            "+ERR+"\n        }\n        Ok(FlagBits {\n"),
m("array-big", "            Some(array_size) => self.parse_array_field(", "            Some(array_size) if array_size > 1024 => Err(ULogError::ParseError(\"array\".to_string())),\n            Some(array_size) => self.parse_array_field("),
m("char-ascii", "impl ParseFromBuf for CChar { \n    fn parse_from_buf(buf: &mut MessageBuf) -> Result<Self, ULogError> { Ok(buf.take_u8()?.into()) } ", "impl ParseFromBuf for CChar { \n    fn parse_from_buf(buf: &mut MessageBuf) -> Result<Self, ULogError> { match buf.take_u8()? { b if b.is_ascii() => Ok(b.into()), _ => Err(ULogError::ParseError(\"char\".to_string())) } } ", f="core/src/field_helpers.rs"),
m("nan", "                BaseType::FLOAT => { inst::ParameterValue::FLOAT(parse_data_field::<f32>(&mut message_buf)?) }\n                other => {\n                    return Err(ULogError::UnknownParameterType(format!(\"Received default parameter message with unsupported type ({raw_key}->{other:?}). Ignoring.\").to_owned()))\n                }\n            };\n\n            log::debug!(\"INFO {:?} {}:\\t{:?}\", field.r#type, &field.name, value);\n\n            Ok(msg::Parameter {", "                BaseType::FLOAT => {\n                    let v = parse_data_field::<f32>(&mut message_buf)?;\n                    if v.is_nan() {\n                        "+ERR+"\n                    }\n                    inst::ParameterValue::FLOAT(v)\n                }\n                other => {\n                    return Err(ULogError::UnknownParameterType(format!(\"{raw_key}->{other:?}\")))\n                }\n            };\n\n            Ok(msg::Parameter {"),
m("log-in-def", "            _ => {\n                // FIXME: Handle other variants in definitions section.", "            ULogMessageType::LOGGING => "+ERR.replace("return ","").replace(";","")+",\n            _ => {\n                // FIXME: Handle other variants in definitions section."),
m("msg-nul", "                timestamp: message_buf.take_u64()?,\n                msg: String::from_utf8(message_buf.into_remaining_bytes())?,\n            })),", "                timestamp: message_buf.take_u64()?,\n                msg: match String::from_utf8(message_buf.into_remaining_bytes())? {\n                    s if s.is_empty() => "+ERR.replace(";","")+",\n                    s => s,\n                },\n            })),"),
m("q-let", "        let default_types = message_buf.take_u8()?; // read the default_types bitfield\n", "        let default_types = message_buf.take_u8()?; // read the default_types bitfield\n        if default_types & !3 != 0 {\n            log::warn!(\"Unknown default types {default_types:#b}.\");\n        }\n", want="quiet"),
]
