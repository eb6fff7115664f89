# behaviour-preserving rewrites of the parser: branching, iterator and conversion styles
P_="core/src/parser.rs"; MB="core/src/message_buf.rs"; D_="core/src/datastream.rs"; F_="core/src/formats.rs"
def R(id, *e): return dict(id=id, edits=list(e), want="quiet")
OBJ="        let is_continued = message_buf.take_u8()? != 0;"
MUTS=[
R("cont-match",(P_,OBJ,"        let is_continued = match message_buf.take_u8()? {\n            0 => false,\n            _ => true,\n        };")),
R("cont-gt",(P_,OBJ,"        let continued = message_buf.take_u8()?;\n        let is_continued = continued > 0;")),
R("multi-ne",(P_,"                        if sub.multi_id > 0 {\n                            self.message_name_with_multi_id\n                                .insert(sub.message_name.clone());\n                        }\n                    }\n                    UlogMessage::LoggedData","                        if sub.multi_id != 0 {\n                            let name = sub.message_name.to_owned();\n                            self.message_name_with_multi_id.insert(name);\n                        }\n                    }\n                    UlogMessage::LoggedData")),
R("update-ids-take",(P_,"            if allowed_subscription_names.contains(&sub.message_name) {","            let wanted = allowed_subscription_names\n                .iter()\n                .any(|name| *name == sub.message_name);\n            if wanted {")),
R("is-allowed-any",(P_,"            Some(set) => set.contains(&msg_id),","            Some(set) => set.iter().any(|id| *id == msg_id),")),
R("is-allowed-isnone",(P_,"        match &self.allowed_subscription_ids {\n            None => true,\n            Some(set) => set.contains(&msg_id),\n        }","        if let Some(ids) = self.allowed_subscription_ids.as_ref() {\n            return ids.contains(&msg_id);\n        }\n        true")),
R("getfmt-cloned",(P_,"        match self.formats.get(message_name) {\n            None => Err(UndefinedFormat(message_name.to_owned())),\n            Some(format) => Ok(format.clone()),\n        }","        self.formats\n            .get(message_name)\n            .cloned()\n            .ok_or_else(|| UndefinedFormat(message_name.to_string()))")),
R("magic-iter",(P_,"        if msg_header[0..7] != MAGIC {\n            return Err(ULogError::InvalidMagicBits);\n        }","        if !msg_header.iter().zip(MAGIC.iter()).all(|(a, b)| a == b) {\n            return Err(ULogError::InvalidMagicBits);\n        }")),
R("hdr-frombytes",(P_,"        let file_start_time = LittleEndian::read_u64(&msg_header[8..16]);","        let mut start = [0u8; 8];\n        start.copy_from_slice(&msg_header[8..]);\n        let file_start_time = u64::from_le_bytes(start);")),
R("incompat-idx",(P_,"            || incompat_flags.iter().skip(1).any(|&f| f != 0);","            || incompat_flags[1..].iter().any(|f| *f > 0);")),
R("incompat-u64",(P_,"            || incompat_flags.iter().skip(1).any(|&f| f != 0);","            || !incompat_flags[1..].iter().all(|&f| f == 0);")),
R("offs-map",(P_,"        let appended_data_offsets = [\n            message_buf.take_u64()?,\n            message_buf.take_u64()?,\n            message_buf.take_u64()?,\n        ];","        let first = message_buf.take_u64()?;\n        let second = message_buf.take_u64()?;\n        let third = message_buf.take_u64()?;\n        let appended_data_offsets = [first, second, third];")),
R("limit-mapor",(P_,"        if let Some(max_bytes_to_read) = max_bytes_to_read {\n            if self.datastream.num_bytes_read >= max_bytes_to_read {\n                self.state = State::EOF;\n                return Ok(None);\n            }\n        }","        let done = max_bytes_to_read.map_or(false, |max| self.datastream.num_bytes_read >= max);\n        if done {\n            self.state = State::EOF;\n            return Ok(None);\n        }")),
R("limit-matches",(P_,"        if let Some(max_bytes_to_read) = max_bytes_to_read {\n            if self.datastream.num_bytes_read >= max_bytes_to_read {\n                self.state = State::EOF;\n                return Ok(None);\n            }\n        }","        if matches!(max_bytes_to_read, Some(max) if max <= self.datastream.num_bytes_read) {\n            self.state = State::EOF;\n            return Ok(None);\n        }")),
R("ts-contains",(P_,"        if !format.fields.iter().any(|f| f.name.as_ref() == \"timestamp\") {\n            return Err(ULogError::MissingTimestamp);\n        }","        let mut has_timestamp = false;\n        for f in format.fields.iter() {\n            if f.name.as_ref() == \"timestamp\" {\n                has_timestamp = true;\n                break;\n            }\n        }\n        if !has_timestamp {\n            return Err(ULogError::MissingTimestamp);\n        }")),
R("ts-nested-if",(P_,"            if let inst::FieldValue::ScalarU64(value) = value {\n                if field.name.as_ref() == \"timestamp\" {\n                    timestamp = Some(value);\n                }\n            }","            if field.name.as_ref() == \"timestamp\" {\n                match value {\n                    inst::FieldValue::ScalarU64(ts) => timestamp = Some(ts),\n                    _ => {}\n                }\n            }")),
R("param-early",(P_,"        if field.r#type.is_array() {\n            return Err(ULogError::UnknownParameterType(\n                format!(\n                    \"Received default parameter message with type ARRAY ({raw_key}). Ignoring.\"\n                )\n                .to_owned(),\n            ));\n        } else {\n            let value: inst::ParameterValue = match field.r#type.base_type {\n                BaseType::INT32 => { inst::ParameterValue::INT32(parse_data_field::<i32>(&mut message_buf)?) }\n                BaseType::FLOAT => { inst::ParameterValue::FLOAT(parse_data_field::<f32>(&mut message_buf)?) }\n                other => {\n                    return Err(ULogError::UnknownParameterType(format!(\"Received default parameter message with unsupported type ({raw_key}->{other:?}). Ignoring.\").to_owned()))\n                }\n            };\n\n            log::debug!(\"INFO {:?} {}:\\t{:?}\", field.r#type, &field.name, value);\n\n            Ok(msg::Parameter {","        if field.r#type.is_array() {\n            return Err(ULogError::UnknownParameterType(format!(\n                \"Received default parameter message with type ARRAY ({raw_key}). Ignoring.\"\n            )));\n        }\n        {\n            let value = match &field.r#type.base_type {\n                BaseType::INT32 => message_buf.take_i32().map(inst::ParameterValue::INT32)?,\n                BaseType::FLOAT => message_buf.take_f32().map(inst::ParameterValue::FLOAT)?,\n                other => {\n                    return Err(ULogError::UnknownParameterType(format!(\"Received default parameter message with unsupported type ({raw_key}->{other:?}). Ignoring.\")))\n                }\n            };\n\n            log::debug!(\"INFO {:?} {}:\\t{:?}\", field.r#type, &field.name, value);\n\n            Ok(msg::Parameter {")),
]
