PA = "core/src/parser.rs"; FH = "core/src/field_helpers.rs"
SEEDS = [
dict(id="c01-multi-empty", prop="C01", edits=[("core/src/parser.rs", "        let key_len = message_buf.take_u8()? as usize;\n        let raw_key = String::from_utf8(message_buf.advance(key_len)?.to_vec())?;", "XX")],
 needs="x", breaks="x", demo=""),
dict(id="c13-first-sub-wins", prop="C13", edits=[(PA, """                        self.subscriptions.insert(sub.msg_id, sub.clone());
                        self.subscription_filter.update_ids(sub);

                        if sub.multi_id > 0 {
                            self.message_name_with_multi_id
                                .insert(sub.message_name.clone());
                        }
                    }
                    UlogMessage::LoggedData""", """                        self.subscriptions
                            .entry(sub.msg_id)
                            .or_insert_with(|| sub.clone());
                        self.subscription_filter.update_ids(sub);

                        if sub.multi_id > 0 {
                            self.message_name_with_multi_id
                                .insert(sub.message_name.clone());
                        }
                    }
                    UlogMessage::LoggedData""")],
 needs="a second subscription that reuses a message id for another format, followed by data", breaks="the data is decoded with the format of the first subscription of the id instead of the current one",
 demo="""
fn main() {
    let f = cat(&[hdr(), fmt("a:uint64_t timestamp;uint16_t x;"), fmt("b:uint64_t timestamp;float y;"), sub(0, 1, "a"), data(1, &cat(&[7u64.to_le_bytes().to_vec(), vec![1, 0]])),
        sub(0, 1, "b"), data(1, &cat(&[8u64.to_le_bytes().to_vec(), 1.5f32.to_le_bytes().to_vec()]))]);
    match full(&f).pop() {
        Some(Ok(UlogMessage::LoggedData(d))) => assert_eq!(&*d.data.name, "b"),
        other => panic!("{other:?}"),
    }
}
"""),
dict(id="c14-empty-list-open", prop="C14", edits=[(PA, "            Some(set) => set.contains(&msg_id),", "            Some(set) => set.is_empty() || set.contains(&msg_id),")],
 needs="an allow list none of whose names has been subscribed to yet (or at all)", breaks="with a list that matches no subscription every data message is decoded instead of ignored",
 demo="""
fn main() {
    let f = cat(&[hdr(), fmt("a:uint64_t timestamp;"), fmt("b:uint64_t timestamp;"), sub(0, 1, "a"), data(1, &7u64.to_le_bytes()), sub(0, 2, "b"), data(2, &8u64.to_le_bytes())]);
    let items: Items = ULogParserBuilder::new(&f[..]).set_subscription_allow_list(["b"]).build().unwrap().collect();
    assert!(matches!(items[3], Ok(UlogMessage::Ignored { msg_type: b'D' })), "{:?}", show(&items));
    assert!(matches!(items[5], Ok(UlogMessage::LoggedData(_))));
}
"""),
dict(id="c15-second-instance-only", prop="C15", edits=[(PA, """                        if sub.multi_id > 0 {
                            self.message_name_with_multi_id
                                .insert(sub.message_name.clone());
                        }
                    }
                    UlogMessage::LoggedData""", """                        if sub.multi_id == 1 {
                            self.message_name_with_multi_id
                                .insert(sub.message_name.clone());
                        }
                    }
                    UlogMessage::LoggedData""")],
 needs="a message name whose instances are numbered 0 and 2, without 1", breaks="the data of both instances is returned without an instance index",
 demo="""
fn main() {
    let f = cat(&[hdr(), fmt("a:uint64_t timestamp;"), sub(0, 1, "a"), sub(2, 2, "a"), data(2, &7u64.to_le_bytes())]);
    match full(&f).pop() {
        Some(Ok(UlogMessage::LoggedData(d))) => assert_eq!(d.data.multi_id_index, Some(2)),
        other => panic!("{other:?}"),
    }
}
"""),
dict(id="c16-nested-timestamp", prop="C16", edits=[(PA, """            if let inst::FieldValue::ScalarU64(value) = value {
                if field.name.as_ref() == "timestamp" {
                    timestamp = Some(value);
                }
            }
""", """            match &value {
                inst::FieldValue::ScalarU64(value) if field.name.as_ref() == "timestamp" => {
                    timestamp = Some(*value);
                }
                inst::FieldValue::ScalarOther(nested) => timestamp = timestamp.or(nested.timestamp),
                _ => {}
            }
""")],
 needs="a format whose top-level field named timestamp is not a uint64_t, with a nested member that has a proper timestamp", breaks="the nested member's timestamp is reported as the message's own instead of a missing-timestamp error",
 demo="""
fn main() {
    let f = cat(&[hdr(), fmt("n:uint64_t timestamp;"), fmt("a:uint32_t timestamp;n inner;"), sub(0, 1, "a"), data(1, &cat(&[vec![1, 0, 0, 0], 7u64.to_le_bytes().to_vec()]))]);
    match full(&f).pop() {
        Some(Err(ULogError::MissingTimestamp)) => {}
        other => panic!("{other:?}"),
    }
}
"""),
dict(id="c17-timestamp-prefix", prop="C17", edits=[(PA, """            if field.name.as_ref() == "timestamp" {
                return include_timestamp;
            }

            if field.name.starts_with("_padding") {""", """            if field.name.starts_with("timestamp") {
                return include_timestamp;
            }

            if field.name.starts_with("_padding") {""")],
 needs="a format with a field whose name begins with timestamp, such as timestamp_sample, and the option off", breaks="timestamp_sample is left out of the data along with timestamp",
 demo="""
fn main() {
    let f = cat(&[hdr(), fmt("a:uint64_t timestamp;uint64_t timestamp_sample;"), sub(0, 1, "a"), data(1, &[7u8; 16])]);
    match all(&f).pop() {
        Some(Ok(UlogMessage::LoggedData(d))) => assert_eq!(d.data.fields.len(), 1),
        other => panic!("{other:?}"),
    }
}
"""),
dict(id="c17-padding-not-consumed", prop="C17", edits=[(PA, """                //Skip over the padding bytes.
                message_buf.skip(array_size)?;""", """                //Skip over the padding bytes.
                if array_size < message_buf.len() {
                    message_buf.skip(array_size)?;
                }""")],
 needs="padding that exactly fills the rest of a nested value at the end of the data, followed by nothing, with a further field declared after it; or two trailing paddings", breaks="padding bytes that reach exactly to the end of the data are not consumed when padding is not returned, so a following field is decoded from them",
 demo="""
fn main() {
    let f = cat(&[hdr(), fmt("a:uint64_t timestamp;uint8_t[2] _padding0;uint8_t x;"), sub(0, 1, "a"), data(1, &[7u8; 10])]);
    assert!(all(&f).pop().unwrap().is_err());
    assert!(full(&f).pop().unwrap().is_err());
}
"""),
dict(id="c09-bool-low-bit", prop="C09", edits=[(FH, "        Ok(buf.take_u8()? != 0)", "        Ok(buf.take_u8()? & 1 != 0)")],
 needs="a bool field or array element stored as an even non-zero byte", breaks="a stored true is decoded as false",
 demo="""
fn main() {
    let f = cat(&[hdr(), fmt("a:uint64_t timestamp;bool[3] b;"), sub(0, 1, "a"), data(1, &[7, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2])]);
    match all(&f).pop() {
        Some(Ok(UlogMessage::LoggedData(d))) => match &d.data.fields[0].value { inst::FieldValue::ArrayBool(v) => assert_eq!(v, &[false, true, true]), o => panic!("{o:?}") },
        other => panic!("{other:?}"),
    }
}
"""),
dict(id="c09-nested-array-restart", prop="C09", edits=[(PA, """            OTHER(type_name) => ArrayOther(parse_array(array_size, message_buf, |buf| {
                self.parse_nested_format(type_name, buf, depth)
            })?),""", """            OTHER(type_name) => {
                let first = self.parse_nested_format(type_name, message_buf, depth)?;
                ArrayOther(parse_array(array_size, message_buf, |buf| {
                    if buf.is_empty() {
                        return Ok(first.clone());
                    }
                    self.parse_nested_format(type_name, buf, depth)
                })?)
            }""")],
 needs="x", breaks="x", demo=""),
]
SEEDS = [s for s in SEEDS if s["demo"]]
