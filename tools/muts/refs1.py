PA="core/src/parser.rs"; DS="core/src/datastream.rs"; FH="core/src/field_helpers.rs"; MB="core/src/message_buf.rs"; FO="core/src/formats.rs"; TK="core/src/tokenizer.rs"
def R(id,*e): return dict(id=id, edits=list(e), want="quiet")
MUTS=[
R("extract-subscribe",(PA,"""                    UlogMessage::AddSubscription(ref sub) => {
                        self.subscriptions.insert(sub.msg_id, sub.clone());
                        self.subscription_filter.update_ids(sub);

                        if sub.multi_id > 0 {
                            self.message_name_with_multi_id
                                .insert(sub.message_name.clone());
                        }

                        // Now""","""                    UlogMessage::AddSubscription(ref sub) => {
                        self.register_subscription(sub);

                        // Now"""),(PA,"""                    UlogMessage::AddSubscription(ref sub) => {
                        self.subscriptions.insert(sub.msg_id, sub.clone());
                        self.subscription_filter.update_ids(sub);

                        if sub.multi_id > 0 {
                            self.message_name_with_multi_id
                                .insert(sub.message_name.clone());
                        }
                    }""","""                    UlogMessage::AddSubscription(ref sub) => self.register_subscription(sub),"""),
 (PA,"""    #[allow(clippy::single_match_else)]
    fn next_sub""","""    fn register_subscription(&mut self, sub: &Subscription) {
        self.subscription_filter.update_ids(sub);
        if sub.multi_id != 0 {
            self.message_name_with_multi_id.insert(sub.message_name.clone());
        }
        self.subscriptions.insert(sub.msg_id, sub.clone());
    }

    #[allow(clippy::single_match_else)]
    fn next_sub""")),
R("state-helpers",(PA,"""        if let Some(max_bytes_to_read) = max_bytes_to_read {
            if self.datastream.num_bytes_read >= max_bytes_to_read {
                self.state = State::EOF;
                return Ok(None);
            }
        }
""","""        if max_bytes_to_read.is_some_and(|limit| self.datastream.num_bytes_read >= limit) {
            return Ok(self.finish());
        }
"""),(PA,"""    #[allow(clippy::single_match_else)]
    fn next_sub""","""    fn finish(&mut self) -> Option<msg::UlogMessage> {
        self.state = State::EOF;
        None
    }

    #[allow(clippy::single_match_else)]
    fn next_sub"""),(PA,"""            None => {
                self.state = State::EOF;
                return Ok(None);
            }
            Some(header)""","""            None => return Ok(self.finish()),
            Some(header)""")),
R("next-transpose",(PA,"""        match self.next_sub() {
            Ok(Some(data)) => Some(Ok(data)),
            Ok(None) => None, // Iterator exhausted.
            Err(e) => Some(Err(e)),
        }""","""        self.next_sub().transpose()""")),
R("header-extract",(PA,"""            match self.read_file_header() {
                Ok(header) => {
                    self.file_header = Some(header);
                    self.state = State::DEFINITIONS;

                    #[allow(clippy::redundant_else)]
                    if self.include_header {
                        return Ok(Some(UlogMessage::Header(header)));
                    } else {
                        //Fallthrough.
                    }
                }
                Err(_) => {
                    self.state = State::ERROR;
                    return Err(ULogError::InvalidHeader);
                }
            }
""","""            let Ok(header) = self.read_file_header() else {
                self.state = State::ERROR;
                return Err(ULogError::InvalidHeader);
            };
            self.state = State::DEFINITIONS;
            self.file_header = Some(header);
            if self.include_header {
                return Ok(Some(UlogMessage::Header(header)));
            }
""")),
R("magic-startswith",(PA,"""        if msg_header[0..7] != MAGIC {
            return Err(ULogError::InvalidMagicBits);
        }

        let file_version: u8 = msg_header[7];
        let file_start_time = LittleEndian::read_u64(&msg_header[8..16]);
""","""        if !msg_header.starts_with(&MAGIC) {
            return Err(ULogError::InvalidMagicBits);
        }

        let mut time = [0u8; 8];
        time.copy_from_slice(&msg_header[8..]);
        let file_start_time = u64::from_le_bytes(time);
        let file_version: u8 = msg_header[7];
""")),
R("flags-loop",(PA,"""        let has_unknown_incompat_bits = incompat_flags[0]
            & !FlagBits::ULOG_INCOMPAT_FLAG0_DATA_APPENDED_MASK
            != 0
            || incompat_flags.iter().skip(1).any(|&f| f != 0);

        if has_unknown_incompat_bits {""","""        let mut unknown = incompat_flags;
        unknown[0] &= !FlagBits::ULOG_INCOMPAT_FLAG0_DATA_APPENDED_MASK;

        if unknown != [0; 8] {""")),
R("flags-for",(PA,"""        let has_unknown_incompat_bits = incompat_flags[0]
            & !FlagBits::ULOG_INCOMPAT_FLAG0_DATA_APPENDED_MASK
            != 0
            || incompat_flags.iter().skip(1).any(|&f| f != 0);
""","""        let mut has_unknown_incompat_bits = (incompat_flags[0]
            & !FlagBits::ULOG_INCOMPAT_FLAG0_DATA_APPENDED_MASK)
            > 0;
        for i in 1..incompat_flags.len() {
            if incompat_flags[i] != 0 {
                has_unknown_incompat_bits = true;
            }
        }
""")),
R("offsets-loop",(PA,"""                    self.max_bytes_to_read = flag_bits
                        .appended_data_offsets
                        .iter()
                        .find(|&&offset| offset > 0)
                        .map(|&offset| offset as usize);
""","""                    for offset in flag_bits.appended_data_offsets {
                        if offset != 0 {
                            self.max_bytes_to_read = Some(offset as usize);
                            break;
                        }
                    }
""")),
R("offsets-copied",(PA,"""                        .iter()
                        .find(|&&offset| offset > 0)
                        .map(|&offset| offset as usize);
""","""                        .into_iter()
                        .map(|offset| offset as usize)
                        .find(|offset| *offset != 0);
""")),
R("data-early",(PA,"""                if let Ok(sub) = self.get_subscription(msg_id) {
                    if self.subscription_filter.is_allowed(sub.msg_id) {
                        let logged_data = self.parse_data_message(sub, message_buf)?;

                        return Ok(msg::UlogMessage::LoggedData(logged_data));
                    } else {
                        return Ok(UlogMessage::Ignored {
                            msg_type: message_type.into()
                        });
                    }
                } else {
                    return Err(ULogError::ParseError(format!(
                        "Received logged data with an unknown msg_id {msg_id}.  Could not find a subscription for this data. Ignoring."
                    )));
                }
""","""                let Some(sub) = self.subscriptions.get(&msg_id) else {
                    return Err(ULogError::ParseError(format!(
                        "Received logged data with an unknown msg_id {msg_id}.  Could not find a subscription for this data. Ignoring."
                    )));
                };
                if !self.subscription_filter.is_allowed(msg_id) {
                    return Ok(UlogMessage::Ignored { msg_type: message_type.into() });
                }
                self.parse_data_message(sub, message_buf).map(UlogMessage::LoggedData)
""")),
R("is-allowed-mapor",(PA,"""        match &self.allowed_subscription_ids {
            None => true,
            Some(set) => set.contains(&msg_id),
        }""","""        self.allowed_subscription_ids.as_ref().map_or(true, |ids| ids.contains(&msg_id))""")),
R("update-ids-rewrite",(PA,"""        if let Some(allowed_subscription_names) = &self.allowed_subscription_names {
            if allowed_subscription_names.contains(&sub.message_name) {
                // Unwrap is safe here because of the initialisation code in set_allowed_subscription_names().
                self.allowed_subscription_ids
                    .as_mut()
                    .unwrap()
                    .insert(sub.msg_id);
            } else if let Some(allowed_subscription_ids) = &mut self.allowed_subscription_ids {
                // The msg_id may have been used for one of the allowed names before.
                allowed_subscription_ids.remove(&sub.msg_id);
            }
        }""","""        let (Some(names), Some(ids)) = (&self.allowed_subscription_names, &mut self.allowed_subscription_ids) else {
            return;
        };
        if names.contains(sub.message_name.as_str()) {
            ids.insert(sub.msg_id);
        } else {
            ids.remove(&sub.msg_id);
        }""")),
R("filter-fields-match",(PA,"""            if field.name.as_ref() == "timestamp" {
                return include_timestamp;
            }

            if field.name.starts_with("_padding") {
                return include_padding;
            }

            true
""","""            match field.name.as_ref() {
                "timestamp" => include_timestamp,
                name if name.starts_with("_padding") => include_padding,
                _ => true,
            }
""")),
R("filter-fields-collect",(PA,"""        self.data.fields.retain(|field| {
            if field.name.as_ref() == "timestamp" {
                return include_timestamp;
            }

            if field.name.starts_with("_padding") {
                return include_padding;
            }

            true
        });
""","""        let fields = std::mem::take(&mut self.data.fields);
        for field in fields {
            let drop_it = (field.name.as_ref() == "timestamp" && !include_timestamp)
                || (field.name.starts_with("_padding") && !include_padding);
            if !drop_it {
                self.data.fields.push(field);
            }
        }
""")),
R("array-collect",(FH,"""    let mut array = Vec::with_capacity(array_size);
    for _ in 0..array_size {
        array.push(parse_element(message_buf)?);
    }
    Ok(array)
""","""    (0..array_size).map(|_| parse_element(message_buf)).collect()
""")),
R("array-while",(FH,"""    for _ in 0..array_size {
        array.push(parse_element(message_buf)?);
    }
""","""    while array.len() < array_size {
        let element = parse_element(message_buf)?;
        array.push(element);
    }
""")),
R("timestamp-position",(PA,"""        if !format.fields.iter().any(|f| f.name.as_ref() == "timestamp") {
            return Err(ULogError::MissingTimestamp);
        }
""","""        let has_timestamp = format.fields.iter().position(|f| &*f.name == "timestamp").is_some();
        if !has_timestamp {
            return Err(ULogError::MissingTimestamp);
        }
""")),
R("padding-reorder",(PA,"""        if array_size <= message_buf.len() {
            log::debug!("Encountered padding, and padding <= message.len(). Ok.");

            if self.include_padding {
                let array = message_buf.advance(array_size)?.to_vec();
                return Ok( Some( inst::Field {
                    name: Shared::from(field.name.clone()),
                    r#type: field.r#type.clone(),
                    value: inst::FieldValue::ArrayU8(array),
                }));
            } else {
                //Skip over the padding bytes.
                message_buf.skip(array_size)?;
            }
        } else {
            match message_buf.len() {
                0 => log::debug!("Encountered padding, and message.len() == 0. Ignoring as per ULOG spec."),
                _ => log::error!("Encountered padding, and padding > message.len(). Ignoring the rest of the message."),
            }
            // The bytes that are there belong to the padding, not to the next field.
            message_buf.skip(message_buf.len())?;
        }
        Ok(None)
""","""        if array_size > message_buf.len() {
            message_buf.skip(message_buf.len())?;
            return Ok(None);
        }
        let bytes = message_buf.advance(array_size)?;
        if !self.include_padding {
            return Ok(None);
        }
        let value = inst::FieldValue::ArrayU8(bytes.to_vec());
        Ok(Some(inst::Field { name: field.name.clone(), r#type: field.r#type.clone(), value }))
""")),
R("fields-helper-ts",(PA,"""            if let inst::FieldValue::ScalarU64(value) = value {
                if field.name.as_ref() == "timestamp" {
                    timestamp = Some(value);
                }
            }
""","""            match (&value, field.name.as_ref()) {
                (inst::FieldValue::ScalarU64(t), "timestamp") => timestamp = Some(*t),
                _ => {}
            }
""")),
R("raw-key-helper",(PA,"""    fn parse_parameter(&self, mut message_buf: MessageBuf) -> Result<msg::Parameter, ULogError> {
        let key_len = message_buf.take_u8()? as usize;
        let raw_key = String::from_utf8(message_buf.advance(key_len)?.to_vec())?;
        let field = parse_key(&raw_key)?;
""","""    fn take_key(message_buf: &mut MessageBuf) -> Result<(String, def::Field), ULogError> {
        let key_len = usize::from(message_buf.take_u8()?);
        let bytes = message_buf.advance(key_len)?;
        let raw_key = std::str::from_utf8(bytes).map_err(|_| ULogError::ParseError("bad utf-8".into()))?.to_string();
        let field = parse_key(&raw_key)?;
        Ok((raw_key, field))
    }

    fn parse_parameter(&self, mut message_buf: MessageBuf) -> Result<msg::Parameter, ULogError> {
        let (raw_key, field) = Self::take_key(&mut message_buf)?;
""")),
R("header-read-array",(PA,"""        let msg_size = self.datastream.read_u16()?;
""","""        let size_result = self.datastream.read_u16();
        let msg_size = match size_result {
            Ok(size) => size,
            Err(e) => return Err(e),
        };
""")),
R("read-message-extend",(PA,"""        let mut message: Vec<u8> = vec![0; msg_size];
        self.datastream.read_exact(&mut message)?;
""","""        let mut message: Vec<u8> = Vec::new();
        message.resize(msg_size, 0);
        self.datastream.read_exact(message.as_mut_slice())?;
""")),
R("noop-all",(PA,"""        let msg_size = self.datastream.read_u16()?;
""","""        let _noop = 0;
        let msg_size = self.datastream.read_u16()?;
"""),(PA,"""        let mut message: Vec<u8> = vec![0; msg_size];
""","""        let _ = ();
        let mut message: Vec<u8> = vec![0; msg_size];
"""),(FH,"""    let mut array = Vec::with_capacity(array_size);
""","""    let _x = 1u8;
    let mut array = Vec::with_capacity(array_size);
"""),(PA,"""        let remaining = message_buf.len();
""","""        let _unused = depth;
        let remaining = message_buf.len();
""")),
R("default-match-param",(PA,"""            let value: inst::ParameterValue = match field.r#type.base_type {
                BaseType::INT32 => { inst::ParameterValue::INT32(parse_data_field::<i32>(&mut message_buf)?) }
                BaseType::FLOAT => { inst::ParameterValue::FLOAT(parse_data_field::<f32>(&mut message_buf)?) }
                other => {
                    return Err(ULogError::UnknownParameterType(format!("Received default parameter message with unsupported type ({raw_key}->{other:?}). Ignoring.").to_owned()))
                }
            };

            log::debug!("INFO {:?} {}:\\t{:?}", field.r#type, &field.name, value);

            Ok(msg::DefaultParameter {""","""            let value = if field.r#type.base_type == BaseType::FLOAT {
                inst::ParameterValue::FLOAT(message_buf.take_f32()?)
            } else if field.r#type.base_type == BaseType::INT32 {
                inst::ParameterValue::INT32(message_buf.take_i32()?)
            } else {
                return Err(ULogError::UnknownParameterType(format!("unsupported type ({raw_key}).")));
            };

            Ok(msg::DefaultParameter {""")),
]
