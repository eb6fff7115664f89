PA="core/src/parser.rs"; DS="core/src/datastream.rs"; FH="core/src/field_helpers.rs"; MB="core/src/message_buf.rs"; FO="core/src/formats.rs"; TK="core/src/tokenizer.rs"; BU="core/src/builder.rs"
def R(id,*e): return dict(id=id, edits=list(e), want="quiet")
MUTS=[
R("tok-match",(TK,"""            tokens.push_back(match number.as_str().parse::<usize>() {
                Ok(number) => Token::Number(number),
                Err(_) => Token::Unknown('0'),
            });""","""            let token = number.as_str().parse::<usize>().map_or(Token::Unknown('0'), Token::Number);
            tokens.push_back(token);""")),
R("tok-helper",(TK,"""    for caps in TOKEN_REGEXP.captures_iter(input) {
        if let Some(identifier) = caps.name("identifier") {
            tokens.push_back(Token::Identifier(identifier.as_str()));
        } else if let""","""    for caps in TOKEN_REGEXP.captures_iter(input) {
        if caps.name("whitespace").is_some() {
            continue;
        }
        if let Some(identifier) = caps.name("identifier") {
            let text = identifier.as_str();
            tokens.push_back(Token::Identifier(text));
        } else if let""")),
R("consume-helpers",(TK,"""        Ok((
            self.0.pop_front().ok_or(ULogError::UnexpectedEndOfFile)?,
            self.0.pop_front().ok_or(ULogError::UnexpectedEndOfFile)?,
            self.0.pop_front().ok_or(ULogError::UnexpectedEndOfFile)?,
        ))""","""        let first = self.consume_one()?;
        let (second, third) = self.consume_two()?;
        Ok((first, second, third))""")),
R("tok-peekmatch",(FO,"""    let mut array_size: Option<usize> = None;

    if token_list.peek() == Some(&Token::LBrace) {
        array_size = match token_list.consume_three()? {
            (Token::LBrace, Token::Number(size), Token::RBrace) => { Some(size) }
            (token1, token2, token3) => { Err(ULogError::ParseError(format!(
                "Invalid array definition. Expected [LBrace, Number, RBrace], got: [{token1:?}, {token2:?}, {token3:?}]"
            )))? }
        }
    }
""","""    let array_size = parse_array_size(token_list)?;
"""),(FO,"""pub(crate) fn parse_field(""","""fn parse_array_size(token_list: &mut TokenList) -> Result<Option<usize>, ULogError> {
    if !matches!(token_list.peek(), Some(Token::LBrace)) {
        return Ok(None);
    }
    match token_list.consume_three()? {
        (_, Token::Number(size), Token::RBrace) => Ok(Some(size)),
        (token1, token2, token3) => Err(ULogError::ParseError(format!("Invalid array definition: [{token1:?}, {token2:?}, {token3:?}]"))),
    }
}

pub(crate) fn parse_field(""")),
R("format-loop",(FO,"""    while !token_list.is_empty() {
        fields.push(parse_field(&mut token_list)?);

        match token_list.consume_one()? {
            Token::Semicolon => {}
            token => {
                Err(ULogError::ParseError(format!(
                    "Invalid format definition. Expected a Semicolon, got: {token:?}"
                )))?;
            }
        }
    }
""","""    loop {
        if token_list.is_empty() {
            break;
        }
        let field = parse_field(&mut token_list)?;
        let end = token_list.consume_one()?;
        if end != Token::Semicolon {
            return Err(ULogError::ParseError(format!(
                "Invalid format definition. Expected a Semicolon, got: {end:?}"
            )));
        }
        fields.push(field);
    }
""")),
R("ds-if",(DS,"""        match self.reader.read_exact(buf) {
            Ok(()) => Ok(buf.len()),
            Err(err) => match err.kind() {
                // Eof is not technically an error, so signal it by reporting 0 bytes read and setting eof true.
                ErrorKind::UnexpectedEof => {
                    self.eof = true;
                    Ok(0)
                }
                _ => Err(ULogError::Io(err)),
            },
        }
""","""        if let Err(err) = self.reader.read_exact(buf) {
            if err.kind() != ErrorKind::UnexpectedEof {
                return Err(ULogError::Io(err));
            }
            self.eof = true;
            return Ok(0);
        }
        Ok(buf.len())
""")),
R("ds-frombytes",(DS,"""        self.read_exact(&mut buf)?;
        Ok(LittleEndian::read_u16(&buf))""","""        let _n = self.read_exact(&mut buf)?;
        Ok(u16::from_le_bytes(buf))""")),
R("ds-kind-guard",(DS,"""            Err(err) => match err.kind() {
                // Eof is not technically an error, so signal it by reporting 0 bytes read and setting eof true.
                ErrorKind::UnexpectedEof => {
                    self.eof = true;
                    Ok(0)
                }
                _ => Err(ULogError::Io(err)),
            },
""","""            Err(err) if err.kind() == ErrorKind::UnexpectedEof => {
                self.eof = true;
                Ok(0)
            }
            Err(err) => Err(ULogError::Io(err)),
""")),
R("mb-len",(MB,"""        self.buf.len().saturating_sub(self.current_index)""","""        self.buf.len() - self.current_index.min(self.buf.len())""")),
R("mb-drain",(MB,"""        self.buf[self.current_index..].to_vec()""","""        let mut buf = self.buf;
        buf.split_off(self.current_index)""")),
R("mb-frombytes",(MB,"""map(LittleEndian::read_u64)""","""map(le64)"""),(MB,"""impl MessageBuf {""","""fn le64(bytes: &[u8]) -> u64 {
    let mut out = 0u64;
    for (i, b) in bytes.iter().enumerate().take(8) {
        out |= u64::from(*b) << (8 * i);
    }
    out
}

impl MessageBuf {""")),
R("mb-le-tryinto",(MB,"""map(LittleEndian::read_u64)""","""map(|bytes| u64::from_le_bytes(bytes.try_into().expect("eight bytes")))""")),
R("b-build",(BU,"""        let result = ULogParser::new(self.reader);

        match result {
            Ok(mut parser) => {
                parser.include_header = self.include_header;
                parser.include_timestamp = self.include_timestamp;
                parser.include_padding = self.include_padding;

                if let Some(allowed_subscr) = self.allowed_subscription_names {
                    parser.set_allowed_subscription_names(allowed_subscr);
                }

                Ok(parser)
            }
            Err(err) => Err(err),
        }
""","""        let ULogParserBuilder {
            reader,
            include_header,
            include_timestamp,
            include_padding,
            allowed_subscription_names,
        } = self;
        let mut parser = ULogParser::new(reader)?;
        if let Some(names) = allowed_subscription_names {
            parser.set_allowed_subscription_names(names);
        }
        parser.include_padding = include_padding;
        parser.include_header = include_header;
        parser.include_timestamp = include_timestamp;
        Ok(parser)
""")),
R("b-list-loop",(BU,"""        let set: HashSet<String> = subs.into_iter().map(|s| s.into()).collect();
        self.allowed_subscription_names = Some(set);
""","""        let mut set = HashSet::new();
        for name in subs {
            let name: String = name.into();
            set.insert(name);
        }
        self.allowed_subscription_names = Some(set);
""")),
R("get-format-ok",(PA,"""        match self.formats.get(message_name) {
            None => Err(UndefinedFormat(message_name.to_owned())),
            Some(format) => Ok(format.clone()),
        }""","""        self.formats
            .get(message_name)
            .cloned()
            .ok_or_else(|| UndefinedFormat(message_name.to_owned()))""")),
R("get-sub-ok",(PA,"""        match self.subscriptions.get(&msg_id) {
            None => Err(UndefinedSubscription(msg_id)),
            Some(sub) => Ok(sub),
        }""","""        self.subscriptions.get(&msg_id).ok_or(UndefinedSubscription(msg_id))""")),
R("defs-insert",(PA,"""                        self.formats.insert(format.name.clone(), Shared::new(format.clone()));""","""                        let shared = Shared::new(format.clone());
                        let key = shared.name.clone();
                        self.formats.entry(key).and_modify(|f| *f = shared.clone()).or_insert(shared);""")),
R("sub-contains",(PA,"""        // Force a lookup of the format and return an error if not found.
        let _format = self.get_format(&message_name)?;

        Ok(msg::Subscription {
            multi_id,
            msg_id,
            message_name: message_name.clone(),
        })""","""        if !self.formats.contains_key(message_name.as_str()) {
            return Err(UndefinedFormat(message_name));
        }

        Ok(msg::Subscription { message_name, msg_id, multi_id })""")),
R("logstr-helper",(PA,"""            ULogMessageType::LOGGING => Ok(msg::UlogMessage::LoggedString(msg::LoggedString {
                level: LogLevel::try_from(message_buf.take_u8()?)?,
                tag: None,
                timestamp: message_buf.take_u64()?,
                msg: String::from_utf8(message_buf.into_remaining_bytes())?,
            })),
            ULogMessageType::LOGGING_TAGGED => {
                Ok(msg::UlogMessage::TaggedLoggedString(msg::LoggedString {
                    level: LogLevel::try_from(message_buf.take_u8()?)?,
                    tag: Some(message_buf.take_u16()?),
                    timestamp: message_buf.take_u64()?,
                    msg: String::from_utf8(message_buf.into_remaining_bytes())?,
                }))
            }
""","""            ULogMessageType::LOGGING => parse_log(message_buf, false).map(UlogMessage::LoggedString),
            ULogMessageType::LOGGING_TAGGED => parse_log(message_buf, true).map(UlogMessage::TaggedLoggedString),
"""),(PA,"""#[derive(Debug)]
pub struct ULogMessageHeader""","""fn parse_log(mut buf: MessageBuf, tagged: bool) -> Result<msg::LoggedString, ULogError> {
    let level = LogLevel::try_from(buf.take_u8()?)?;
    let tag = if tagged { Some(buf.take_u16()?) } else { None };
    let timestamp = buf.take_u64()?;
    let text = String::from_utf8(buf.into_remaining_bytes())?;
    Ok(msg::LoggedString { level, tag, timestamp, msg: text })
}

#[derive(Debug)]
pub struct ULogMessageHeader""")),
R("fieldsub-split",(PA,"""        for field in &format.fields {
            // Handle padding fields.
            if field.name.starts_with("_padding") {
                if let Some(padding_field) = self.parse_padding(field, message_buf, depth)? {
                    fields.push(padding_field);
                }
                continue;
            }

            let value: inst::FieldValue = self.parse_field_value(field, message_buf, depth)?;
""","""        for i in 0..format.fields.len() {
            let field = &format.fields[i];
            // Handle padding fields.
            if is_padding(&field.name) {
                fields.extend(self.parse_padding(field, message_buf, depth)?);
                continue;
            }

            let value: inst::FieldValue = self.parse_field_value(field, message_buf, depth)?;
"""),(PA,"""#[derive(Debug)]
pub struct ULogMessageHeader""","""fn is_padding(name: &str) -> bool {
    name.starts_with("_padding")
}

#[derive(Debug)]
pub struct ULogMessageHeader""")),
R("nested-order",(PA,"""        let remaining = message_buf.len();
        let format = self.parse_data_message_sub(
            self.get_format(type_name)?,
            message_buf,
            depth + 1,
        )?;

        // The number of nested values is only limited by the message length if each of them uses up some bytes.
        if message_buf.len() >= remaining {""","""        let definition = self.get_format(type_name)?;
        let before = message_buf.len();
        let format = self.parse_data_message_sub(definition, message_buf, depth + 1)?;
        let used = before - message_buf.len();

        // The number of nested values is only limited by the message length if each of them uses up some bytes.
        if used == 0 {""")),
R("ts-expect",(PA,"""        let timestamp = data_format.timestamp.ok_or(ULogError::MissingTimestamp)?;
""","""        let Some(timestamp) = data_format.timestamp else {
            return Err(ULogError::MissingTimestamp);
        };
""")),
R("removal-get",(PA,"""                let message_contents = message_buf.into_remaining_bytes();
                let msg_id = MessageBuf::from_vec(message_contents.clone()).take_u16()?;
                self.subscriptions.remove(&msg_id);
""","""                let message_contents = message_buf.into_remaining_bytes();
                if message_contents.len() < 2 {
                    return Err(ULogError::UnexpectedEndOfFile);
                }
                let msg_id = u16::from_le_bytes([message_contents[0], message_contents[1]]);
                self.subscriptions.remove(&msg_id);
""")),
]
