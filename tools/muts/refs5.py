# behaviour-preserving rewrites of the buffer, the stream, the tokenizer and the definitions
MB="core/src/message_buf.rs"; D_="core/src/datastream.rs"; F_="core/src/formats.rs"; T_="core/src/tokenizer.rs"; DI="core/src/display.rs"
def R(id, *e, **k): return dict(id=id, edits=list(e), want="quiet", **k)
SHOW=dict(checks="C36 C37")
PAR=dict(checks="C08 C09 C35 C38")
MUTS=[
R("show-bool-if",(DI,'            FieldValue::ScalarBool(v) => write!(f, "{v}"),','            FieldValue::ScalarBool(v) => f.write_str(if *v { "true" } else { "false" }),'),**SHOW),
R("show-arr-loop",(DI,'''    let s = arr
        .iter()
        .map(std::string::ToString::to_string)
        .collect::<Vec<_>>()
        .join(", ");
    write!(f, "[{s}]")''','''    f.write_str("[")?;
    for (i, v) in arr.iter().enumerate() {
        if i > 0 {
            f.write_str(", ")?;
        }
        write!(f, "{v}")?;
    }
    f.write_str("]")'''),**SHOW),
R("show-other-loop",(DI,'''                let formatted: Vec<String> = arr.iter().map(|f| format!("{{{f}}}")).collect();
                write!(f, "[{}]", formatted.join(", "))''','''                let mut text = String::from("[");
                for (i, v) in arr.iter().enumerate() {
                    if i != 0 {
                        text.push_str(", ");
                    }
                    text.push('{');
                    text.push_str(&v.to_string());
                    text.push('}');
                }
                text.push(']');
                f.write_str(&text)'''),**SHOW),
R("adv-get",(MB,'''        if size > self.len() {
            Err(ULogError::ParseError(format!(
                "MessageBuf: Out of bounds: tried to read {} bytes, but only {} remaining",
                size,
                self.buf.len() - self.current_index
            )))
        } else {
            let bytes = &self.buf[self.current_index..self.current_index + size];
            self.current_index += size;
            Ok(bytes)
        }''','''        let remaining = self.buf.len() - self.current_index;
        let start = self.current_index;
        match start.checked_add(size).and_then(|end| self.buf.get(start..end)) {
            Some(bytes) => {
                self.current_index += size;
                Ok(bytes)
            }
            None => Err(ULogError::ParseError(format!(
                "MessageBuf: Out of bounds: tried to read {size} bytes, but only {remaining} remaining"
            ))),
        }'''),**PAR),
R("eof-if",(D_,'''            Err(err) => match err.kind() {
                // Eof is not technically an error, so signal it by reporting 0 bytes read and setting eof true.
                ErrorKind::UnexpectedEof => {
                    self.eof = true;
                    Ok(0)
                }
                _ => Err(ULogError::Io(err)),
            },''','''            Err(err) => {
                if err.kind() != ErrorKind::UnexpectedEof {
                    return Err(ULogError::Io(err));
                }
                self.eof = true;
                Ok(0)
            }'''),checks="C03 C05 C12 C13"),
R("key-ok",(F_,'''    if !token_list.is_empty() {
        return Err(ULogError::ParseError(format!(
            "Invalid key. Unexpected tokens after the name: {token_list:?}"
        )));
    }

    Ok(field)''','''    match token_list.peek() {
        None => Ok(field),
        Some(_) => Err(ULogError::ParseError(format!(
            "Invalid key. Unexpected tokens after the name: {token_list:?}"
        ))),
    }'''),**PAR),
R("two-first",(T_,'''        Ok((
            self.0.pop_front().ok_or(ULogError::UnexpectedEndOfFile)?,
            self.0.pop_front().ok_or(ULogError::UnexpectedEndOfFile)?,
        ))''','''        let first = self.consume_one()?;
        let second = self.consume_one()?;
        Ok((first, second))'''),**PAR),
R("size-map",(F_,'''    if token_list.peek() == Some(&Token::LBrace) {
        array_size =''','''    let is_array = matches!(token_list.peek(), Some(Token::LBrace));
    if is_array {
        array_size ='''),**PAR),
R("fields-loop",(F_,'''    while !token_list.is_empty() {
        fields.push(parse_field(&mut token_list)?);
''','''    loop {
        if token_list.peek().is_none() {
            break;
        }
        let field = parse_field(&mut token_list)?;
        fields.push(field);
'''),**PAR),
]
