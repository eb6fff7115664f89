M="core/src/model.rs"; PR="core/src/parser.rs"; E="core/src/encode.rs"
def R(id,*e): return dict(id=id, edits=list(e), want="quiet", checks="C37 C01 C02 C10 C11")
def B(id,*e): return dict(id=id, edits=list(e), want="alarm", checks="C37")
def W(id,*e): return dict(id=id, edits=list(e), want="alarm", checks="C11")
TR="""        let mut end = self.len();
        while end > 0 && self[end - 1].0 == 0 {
            end -= 1;
        }
        &self[..end]"""
LT="self.to_string_lossy().trim_end_matches(char::from(0)).to_string()"
GF="""        match self.formats.get(message_name) {"""
MUTS=[
B("trim-no-step",(M,"            end -= 1;\n","")),
B("trim-one-left",(M,"while end > 0 && self[end - 1].0 == 0 {","while end > 1 && self[end - 1].0 == 0 {")),
B("trim-spaces",(M,"self[end - 1].0 == 0 {","self[end - 1].0 <= 32 {")),
B("trim-twice",(M,"            end -= 1;\n","            end = end.saturating_sub(2);\n")),
B("trim-first-nul",(M,TR,"""        let end = self.iter().position(|c| c.0 == 0).unwrap_or(self.len());
        &self[..end]""")),
B("trim-minus-one",(M,"        &self[..end]","        &self[..end.saturating_sub(1)]")),
B("trim-once",(M,"while end > 0 && self[end - 1].0 == 0 {","if end > 0 && self[end - 1].0 == 0 {")),
B("text-start",(M,LT,"self.to_string_lossy().trim_start_matches(char::from(0)).to_string()")),
B("text-both",(M,LT,"self.to_string_lossy().trim_matches(char::from(0)).to_string()")),
B("text-trim",(M,LT,"self.to_string_lossy().trim_end().to_string()")),
B("text-none",(M,LT,"self.to_string_lossy()")),
B("char-latin",(M,"""        if self.0.is_ascii() {
            self.0 as char
        } else {
            '\\u{FFFD}' // Use � as a replacement character.
        }""","        self.0 as char")),
B("char-mask",(M,"    pub fn as_u8(&self) -> u8 {\n        self.0","    pub fn as_u8(&self) -> u8 {\n        self.0 & 0x7F")),
B("bytes-short",(M,"unsafe { std::slice::from_raw_parts(self.as_ptr() as *const u8, self.len()) }","unsafe { std::slice::from_raw_parts(self.as_ptr() as *const u8, self.len().saturating_sub(1)) }")),
B("flag-swap",(M,"self.compat_flags[0]","self.incompat_flags[0]")),
B("kind-swap",(M,"system_wide: self.default_types & DEFAULT_TYPE_SYSTEM_WIDE","system_wide: self.default_types & DEFAULT_TYPE_CONFIGURATION")),
B("get-trim",(PR,"match self.formats.get(message_name) {","match self.formats.get(message_name.trim_end_matches('0')) {")),
B("get-mask",(PR,"match self.subscriptions.get(&msg_id) {","match self.subscriptions.get(&(msg_id & 0x7fff)) {")),
B("get-refused",(PR,"            Some(sub) => Ok(sub),","            Some(sub) if sub.msg_id != 0 => Ok(sub),\n            Some(_) => Err(UndefinedSubscription(msg_id)),")),
R("get-okor",(PR,"""        match self.formats.get(message_name) {
            None => Err(UndefinedFormat(message_name.to_owned())),
            Some(format) => Ok(format.clone()),
        }""","""        self.formats.get(message_name).cloned().ok_or_else(|| UndefinedFormat(message_name.to_string()))""")),
R("get-if",(PR,"""        match self.subscriptions.get(&msg_id) {
            None => Err(UndefinedSubscription(msg_id)),
            Some(sub) => Ok(sub),
        }""","""        if !self.subscriptions.contains_key(&msg_id) {
            return Err(UndefinedSubscription(msg_id));
        }
        Ok(&self.subscriptions[&msg_id])""")),
W("ls-lost",(E,"        writer.write_all(self.msg.as_bytes())?;","        writer.write_all(self.msg.as_bytes()).ok();")),
R("trim-rpos",(M,TR,"""        let end = self.iter().rposition(|c| c.0 != 0).map_or(0, |i| i + 1);
        &self[..end]""")),
R("trim-last",(M,TR,"""        let mut rest = self;
        while let Some((last, head)) = rest.split_last() {
            if last.0 != 0 {
                break;
            }
            rest = head;
        }
        rest""")),
R("trim-loop",(M,TR,"""        let mut end = self.len();
        loop {
            if end == 0 || self[end - 1].as_u8() != 0 {
                return &self[..end];
            }
            end -= 1;
        }""")),
R("trim-count",(M,TR,"""        let mut nuls = 0;
        while nuls < self.len() && self[self.len() - 1 - nuls].0 == 0 {
            nuls += 1;
        }
        &self[..self.len() - nuls]""")),
R("text-nul",(M,LT,"self.to_string_lossy().trim_end_matches('\\0').to_owned()")),
R("text-slice",(M,LT,"self.trim_end_nul().to_string_lossy()")),
R("char-match",(M,"""        if self.0.is_ascii() {
            self.0 as char
        } else {
            '\\u{FFFD}' // Use � as a replacement character.
        }""","""        match self.0 {
            b @ 0..=127 => char::from(b),
            _ => char::REPLACEMENT_CHARACTER,
        }""")),
]
MUTS+=[
dict(id="index-getformat",edits=[(PR,"            Some(format) => Ok(format.clone()),","            Some(_) => Ok(self.formats[message_name].clone()),")],want="quiet",checks="C01 C37"),
dict(id="index-panic",edits=[(PR,"""        match self.formats.get(message_name) {
            None => Err(UndefinedFormat(message_name.to_owned())),
            Some(format) => Ok(format.clone()),
        }""","""        Ok(self.formats[message_name].clone())""")],want="alarm",checks="C01"),
]
