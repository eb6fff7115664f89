FO="core/src/formats.rs"; TK="core/src/tokenizer.rs"; PA="core/src/parser.rs"; MO="core/src/model.rs"; DI="core/src/display.rs"; MB="core/src/message_buf.rs"; EN="core/src/encode.rs"
def A(id,checks,*e): return dict(id=id, edits=list(e), checks=checks)
def R(id,*e): return dict(id=id, edits=list(e), want="quiet", checks="C19 C20 C08 C10 C01 C02")
LV="""                b'0' => Ok(LogLevel::Emerg),
                b'1' => Ok(LogLevel::Alert),
                b'2' => Ok(LogLevel::Crit),
                b'3' => Ok(LogLevel::Err),
                b'4' => Ok(LogLevel::Warning),
                b'5' => Ok(LogLevel::Notice),
                b'6' => Ok(LogLevel::Info),
                b'7' => Ok(LogLevel::Debug),
"""
SEMI="""        match token_list.consume_one()? {
            Token::Semicolon => {}
            token => {
                Err(ULogError::ParseError(format!(
                    "Invalid format definition. Expected a Semicolon, got: {token:?}"
                )))?;
            }
        }
"""
KEYEND="""    if !token_list.is_empty() {
        return Err(ULogError::ParseError(format!(
            "Invalid key. Unexpected tokens after the name: {token_list:?}"
        )));
    }
"""
ARR="""            (Token::LBrace, Token::Number(size), Token::RBrace) => { Some(size) }"""
NUM="""            tokens.push_back(match number.as_str().parse::<usize>() {
                Ok(number) => Token::Number(number),
                Err(_) => Token::Unknown('0'),
            });"""
NAMES="""        match string {
            "int8_t" => def::BaseType::INT8,
            "int16_t" => def::BaseType::INT16,
            "int32_t" => def::BaseType::INT32,
            "int64_t" => def::BaseType::INT64,
            "uint8_t" => def::BaseType::UINT8,
            "uint16_t" => def::BaseType::UINT16,
            "uint32_t" => def::BaseType::UINT32,
            "uint64_t" => def::BaseType::UINT64,
            "double" => def::BaseType::DOUBLE,
            "float" => def::BaseType::FLOAT,
            "bool" => def::BaseType::BOOL,
            "char" => def::BaseType::CHAR,
            _ => def::BaseType::OTHER(string.to_string()),
        }
"""
FNAME="""    let field_name = match token_list.consume_one()? {
        Token::Identifier(str) => str,
        token => Err(ULogError::ParseError(format!(
            "Invalid field definition. Expected an Identifier, got: {token:?}"
        )))?,
    };
"""
MUTS=[
A("lvl-swap","C19",(MO,"b'2' => Ok(LogLevel::Crit)","b'2' => Ok(LogLevel::Err)"),(MO,"b'3' => Ok(LogLevel::Err)","b'3' => Ok(LogLevel::Crit)")),
A("lvl-wide","C19",(MO,"b'7' => Ok(LogLevel::Debug)","b'7' | b'8' => Ok(LogLevel::Debug)")),
A("lvl-raw","C19",(MO,"b'0' => Ok(LogLevel::Emerg)","b'0' | 0 => Ok(LogLevel::Emerg)")),
A("lvl-high","C19",(MO,"""            match byte {
                b'0'""","""            match byte & 0x7F {
                b'0'""")),
A("lvl-default","C19",(PA,"""                level: LogLevel::try_from(message_buf.take_u8()?)?,
                tag""","""                level: LogLevel::try_from(message_buf.take_u8()?).unwrap_or(LogLevel::Debug),
                tag""")),
A("lvl-name","C19",(DI,'LogLevel::Emerg => "EMERG"','LogLevel::Emerg => "ALERT"')),
A("lvl-name-2","C19",(DI,'LogLevel::Notice => "NOTICE"','LogLevel::Notice => "NOTE"')),
A("name-swap","C20",(FO,'"int16_t" => def::BaseType::INT16','"int16_t" => def::BaseType::INT32'),(FO,'"int32_t" => def::BaseType::INT32','"int32_t" => def::BaseType::INT16')),
A("name-trim","C20",(FO,"        match string {","        match string.trim_start_matches('_') {")),
A("name-case","C20",(FO,"        match string {","        match string.to_lowercase().as_str() {")),
A("name-alias","C20",(FO,'"double" =>','"double" | "float64" =>')),
A("name-lost","C20",(FO,'            "char" => def::BaseType::CHAR,\n','')),
A("other-lower","C20",(FO,"OTHER(string.to_string())","OTHER(string.to_lowercase())")),
A("key-leftover","C20",(FO,KEYEND,"")),
A("key-semi","C20",(FO,"    if !token_list.is_empty() {\n        return","    if !token_list.is_empty() && token_list.peek() != Some(&Token::Semicolon) {\n        return")),
A("semi-optional","C20",(FO,"            Token::Semicolon => {}","            Token::Semicolon | Token::Colon => {}")),
A("semi-last","C20",(FO,SEMI,"""        if token_list.is_empty() {
            break;
        }
"""+SEMI)),
A("no-colon","C20",(FO,"(Token::Identifier(str), Token::Colon) => str","(Token::Identifier(str), Token::Colon | Token::Semicolon) => str")),
A("arr-close","C20",(FO,"(Token::LBrace, Token::Number(size), Token::RBrace)","(Token::LBrace, Token::Number(size), Token::RBrace | Token::LBrace)")),
A("arr-zero-none","C20",(FO,ARR,"            (Token::LBrace, Token::Number(0), Token::RBrace) => None,\n"+ARR)),
A("arr-plus","C20",(FO,"=> { Some(size) }","=> { Some(size.max(1)) }")),
A("num-zero","C20",(TK,"Err(_) => Token::Unknown('0')","Err(_) => Token::Number(0)")),
A("num-trunc","C20",(TK,NUM,"            tokens.push_back(match number.as_str().parse::<u64>() {\n                Ok(number) => Token::Number(number as u16 as usize),\n                Err(_) => Token::Unknown('0'),\n            });")),
A("unk-skip","C20",(TK,'            tokens.push_back(Token::Unknown(unknown.as_str().chars().next().unwrap()));','            let _ = unknown;')),
A("re-unknown","C20",(TK,"|(?P<unknown>.)","|(?P<unknown>[!-~])")),
A("re-ident","C20",(TK,"(?P<identifier>[a-zA-Z_][a-zA-Z0-9_]*)","(?P<identifier>[a-zA-Z_][a-zA-Z0-9_.]*)")),
A("re-ident-digit","C20",(TK,"(?P<identifier>[a-zA-Z_][a-zA-Z0-9_]*)","(?P<identifier>[a-zA-Z_][a-zA-Z_]*)")),
A("re-hyphen","C20",(TK,r"(?P<whitespace>\s+)",r"(?P<whitespace>[\s-]+)")),
A("first-field","C20",(FO,"fields.push(parse_field(&mut token_list)?);","fields.insert(0, parse_field(&mut token_list)?);")),
A("name-from-type","C20",(FO,"        Token::Identifier(type_name) => def::BaseType::from_string(type_name),","        Token::Identifier(type_name) => def::BaseType::from_string(type_name.strip_prefix(\"unsigned_\").unwrap_or(type_name)),")),
A("lossy","C20",(FO,"String::from_utf8(message_buf.into_remaining_bytes())?","String::from_utf8_lossy(&message_buf.into_remaining_bytes()).into_owned()")),
A("fmt-skip-empty","C20",(FO,"    while !token_list.is_empty() {\n        fields","    while token_list.remaining() > 1 {\n        fields")),
A("size-cap","C20",(FO,"            array_size,\n        },\n    })","            array_size: array_size.filter(|n| *n < 65536),\n        },\n    })")),
A("size-mask","C20",(FO,"            array_size,\n        },\n    })","            array_size: array_size.map(|n| n & 0xFFFF),\n        },\n    })")),
# refactors
R("lvl-if",(MO,"            match byte {\n"+LV,"            if byte == b'0' {\n                return Ok(LogLevel::Emerg);\n            }\n            match byte {\n"+LV.split("\n",1)[1])),
R("lvl-sub",(MO,"            match byte {\n"+LV,"            match byte.wrapping_sub(b'0') {\n"+LV.replace("b'","").replace("' =>"," =>"))),
R("lvl-disp",(DI,'        write!(f, "{level_str}")','        f.write_str(level_str)')),
R("lvl-disp2",(DI,"let level_str = match *self {","let level_str = match self {")),
R("lvl-let",(PA,"""            return Ok(UlogMessage::LoggedString(""","""            let level = message_buf.take_u8()?;
            return Ok(UlogMessage::LoggedString(""")) if False else R("lvl-charx",(MO,"            match byte {\n"+LV,"            match byte as char {\n"+LV.replace("b'","'"))),
R("names-if",(FO,NAMES,"""        if string == "int8_t" {
            return def::BaseType::INT8;
        }
"""+NAMES.replace('            "int8_t" => def::BaseType::INT8,\n',""))),
R("names-order",(FO,NAMES,NAMES.replace('            "bool" => def::BaseType::BOOL,\n',"").replace('            "int8_t"','            "bool" => def::BaseType::BOOL,\n            "int8_t"'))),
R("names-to-owned",(FO,"OTHER(string.to_string())","OTHER(string.to_owned())")),
R("key-peek",(FO,"    if !token_list.is_empty() {\n        return","    if token_list.peek().is_some() {\n        return")),
R("key-match",(FO,KEYEND+"\n    Ok(field)","""    match token_list.consume_one() {
        Ok(token) => Err(ULogError::ParseError(format!("Invalid key. Unexpected token: {token:?}"))),
        Err(_) => Ok(field),
    }""")),
R("semi-if",(FO,SEMI,"""        let token = token_list.consume_one()?;
        if token != Token::Semicolon {
            return Err(ULogError::ParseError(format!(
                "Invalid format definition. Expected a Semicolon, got: {token:?}"
            )));
        }
""")),
R("arr-let",(FO,"    let mut array_size: Option<usize> = None;\n\n    if token_list.peek() == Some(&Token::LBrace) {\n        array_size = match","    let array_size = if let Some(Token::LBrace) = token_list.peek() {\n        match"),(FO,"""{token3:?}]"
            )))? }
        }
    }
""","""{token3:?}]"
            )))? }
        }
    } else {
        None
    };
""")),
R("field-name-fn",(FO,FNAME,"""    let field_name = expect_identifier(token_list)?;
"""),(FO,"pub(crate) fn parse_field(","""fn expect_identifier<'a>(token_list: &mut TokenList<'a>) -> Result<&'a str, ULogError> {
    match token_list.consume_one()? {
        Token::Identifier(str) => Ok(str),
        token => Err(ULogError::ParseError(format!(
            "Invalid field definition. Expected an Identifier, got: {token:?}"
        ))),
    }
}

pub(crate) fn parse_field(""")),
R("field-into",(FO,"name: Shared::from(field_name.to_string())","name: Shared::from(field_name)")),
R("two-ones",(FO,"match token_list.consume_two()? {","match (token_list.consume_one()?, token_list.consume_one()?) {")),
R("loop-some",(FO,"    while !token_list.is_empty() {\n        fields","    while token_list.peek().is_some() {\n        fields")),
R("loop-break",(FO,"    while !token_list.is_empty() {\n        fields","    loop {\n        if token_list.is_empty() {\n            break;\n        }\n        fields")),
R("fields-new",(FO,"let mut fields: Vec<def::Field> = vec![];","let mut fields = Vec::with_capacity(token_list.remaining() / 3);")),
R("tok-num",(TK,NUM,"""            let token = if let Ok(number) = number.as_str().parse() {
                Token::Number(number)
            } else {
                Token::Unknown('0')
            };
            tokens.push_back(token);""")),
R("tok-numor",(TK,NUM,"            tokens.push_back(number.as_str().parse().map_or(Token::Unknown('0'), Token::Number));")),
R("re-order",(TK,r"(?P<colon>:)|(?P<semicolon>;)",r"(?P<semicolon>;)|(?P<colon>:)")),
R("re-d",(TK,"(?P<number>[0-9]+)",r"(?P<number>[0-9][0-9]*)")),
R("consume-one-match",(TK,"        self.0.pop_front().ok_or(ULogError::UnexpectedEndOfFile)\n    }","        match self.0.pop_front() {\n            Some(token) => Ok(token),\n            None => Err(ULogError::UnexpectedEndOfFile),\n        }\n    }")),
R("consume-two-let",(TK,"""        Ok((
            self.0.pop_front().ok_or(ULogError::UnexpectedEndOfFile)?,
            self.0.pop_front().ok_or(ULogError::UnexpectedEndOfFile)?,
        ))""","""        let first = self.consume_one()?;
        let second = self.consume_one()?;
        Ok((first, second))""")),
R("peek-get",(TK,"self.0.front()","self.0.get(0)")),
R("empty-len",(TK,"self.0.is_empty()","self.0.len() == 0")),
R("utf8-map",(FO,"    let str_format = String::from_utf8(message_buf.into_remaining_bytes())?;","    let bytes = message_buf.into_remaining_bytes();\n    let str_format = String::from_utf8(bytes).map_err(ULogError::from)?;")),
]
