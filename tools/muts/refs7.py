# behaviour-preserving rewrites of padding, nesting, arrays, levels, the message dispatch
P_="core/src/parser.rs"; FH="core/src/field_helpers.rs"; M_="core/src/model.rs"
def R(id, *e, **k): return dict(id=id, edits=list(e), want="quiet", checks=k.get("checks","C01 C02 C08 C09 C16 C17 C20 C38"))
MUTS=[
R("level-range",(M_,'''            match byte {
                b'0' => Ok(LogLevel::Emerg),
                b'1' => Ok(LogLevel::Alert),
                b'2' => Ok(LogLevel::Crit),
                b'3' => Ok(LogLevel::Err),
                b'4' => Ok(LogLevel::Warning),
                b'5' => Ok(LogLevel::Notice),
                b'6' => Ok(LogLevel::Info),
                b'7' => Ok(LogLevel::Debug),
                byte => Err(ULogError::ParseError(format!(
                    "Invalid LogLevel value: {byte:02X}"
                ))),
            }''','''            let levels = [
                LogLevel::Emerg,
                LogLevel::Alert,
                LogLevel::Crit,
                LogLevel::Err,
                LogLevel::Warning,
                LogLevel::Notice,
                LogLevel::Info,
                LogLevel::Debug,
            ];
            if !(b'0'..=b'7').contains(&byte) {
                return Err(ULogError::ParseError(format!(
                    "Invalid LogLevel value: {byte:02X}"
                )));
            }
            Ok(levels[(byte - b'0') as usize])'''),checks="C01 C02 C08 C19 C35 C38"),
R("pad-flip",(P_,'''        if array_size <= message_buf.len() {
            log::debug!("Encountered padding, and padding <= message.len(). Ok.");

            if self.include_padding {
                let array = message_buf.advance(array_size)?.to_vec();
                return Ok( Some( inst::Field {
                    name: Shared::from(field.name.clone()),
                    r#type: field.r#type.clone(),
                    value: inst::FieldValue::ArrayU8(array),
                }));
            } else {
                //Skip over the padding bytes.
                message_buf.skip(array_size)?;
            }
        } else {''','''        if array_size <= message_buf.len() {
            let bytes = message_buf.advance(array_size)?;
            if !self.include_padding {
                return Ok(None);
            }
            let value = inst::FieldValue::ArrayU8(bytes.to_vec());
            return Ok(Some(inst::Field {
                name: field.name.clone(),
                r#type: field.r#type.clone(),
                value,
            }));
        } else {''')),
R("arr-range",(FH,'''    let mut array = Vec::with_capacity(array_size);
    for _ in 0..array_size {
        array.push(parse_element(message_buf)?);
    }
    Ok(array)''','''    (0..array_size).map(|_| parse_element(message_buf)).collect()''')),
R("nest-used",(P_,'''        if message_buf.len() >= remaining {
            return Err(ULogError::ParseError(format!(
                "Nested value has no data: {type_name}"
            )));
        }

        Ok(format)''','''        let used = remaining - message_buf.len();
        if used == 0 {
            Err(ULogError::ParseError(format!(
                "Nested value has no data: {type_name}"
            )))
        } else {
            Ok(format)
        }''')),
R("appended-loop",(P_,'''                    self.max_bytes_to_read = flag_bits
                        .appended_data_offsets
                        .iter()
                        .find(|&&offset| offset > 0)
                        .map(|&offset| offset as usize);''','''                    let mut limit = None;
                    for offset in flag_bits.appended_data_offsets.iter().copied() {
                        if offset != 0 {
                            limit = Some(offset as usize);
                            break;
                        }
                    }
                    self.max_bytes_to_read = limit;'''),checks="C05 C13 C18 C38 C39"),
R("unh-merge",(P_,'''            ULogMessageType::UNKNOWN(byte) => {
                log::warn!("Unknown message type: 0x{byte:02X}");
                Ok(UlogMessage::Unhandled {
                    msg_type: message_type.into(),
                    message_contents: message_buf.into_remaining_bytes(),
                })
            }
            _ => {
''','''            _ => {
                if let ULogMessageType::UNKNOWN(byte) = message_type {
                    log::warn!("Unknown message type: 0x{byte:02X}");
                }
''')),
R("rm-slice",(P_,'''                let msg_id = MessageBuf::from_vec(message_contents.clone()).take_u16()?;
                self.subscriptions.remove(&msg_id);''','''                let mut id_bytes = MessageBuf::from_vec(message_contents.to_vec());
                let removed = id_bytes.take_u16()?;
                let _ = self.subscriptions.remove(&removed);''')),
R("next-transpose2",(P_,'''        match self.next_sub() {
            Ok(Some(data)) => Some(Ok(data)),
            Ok(None) => None, // Iterator exhausted.
            Err(e) => Some(Err(e)),
        }''','''        let pulled = self.next_sub();
        match pulled {
            Err(e) => Some(Err(e)),
            Ok(item) => item.map(Ok),
        }''')),
]
