D="core/src/display.rs"
def R(id,*e): return dict(id=id, edits=[(D,)+x for x in e], want="quiet", checks="C36 C33 C19")
def M(id,*e): return dict(id=id, edits=[(D,)+x for x in e], want="alarm", checks="C36")
FM="""        for (i, field) in self.fields.iter().enumerate() {
            if i > 0 {
                write!(f, "; ")?;
            }
            write!(f, "{field}")?;
        }
        Ok(())"""
LS="""        match self.tag {
            None => {
                write!(f, "{} {}: {}", self.level, self.timestamp, self.msg)
            }
            Some(tag) => {
                write!(
                    f,
                    "{} Tag: {} {}: {}",
                    self.level, tag, self.timestamp, self.msg
                )
            }
        }"""
MUTS=[
M("sub-multi",("self.message_name, self.msg_id\n","self.message_name, self.multi_id\n")),
M("sub-trunc",("self.message_name, self.msg_id\n","self.message_name, self.msg_id as u8\n")),
M("tag-zero",("        match self.tag {\n            None","        match self.tag.filter(|t| *t > 0) {\n            None")),
M("tag-swap",("self.level, tag, self.timestamp, self.msg","self.level, self.timestamp, tag, self.msg")),
M("msg-trim",("self.level, self.timestamp, self.msg)","self.level, self.timestamp, self.msg.trim_end())")),
M("msg-prec",('"{} {}: {}", self.level','"{} {}: {:.80}", self.level')),
M("ts-secs",('self.level, self.timestamp, self.msg)','self.level, self.timestamp / 1000, self.msg)')),
M("fields-skip",("self.fields.iter().enumerate() {\n            if i > 0","self.fields.iter().skip(1).enumerate() {\n            if i > 0")),
M("fields-take",("self.fields.iter().enumerate() {\n            if i > 0","self.fields.iter().take(16).enumerate() {\n            if i > 0")),
M("fields-rev",("self.fields.iter().enumerate() {\n            if i > 0","self.fields.iter().rev().enumerate() {\n            if i > 0")),
M("fields-nopad",('            write!(f, "{field}")?;','            if !field.name.starts_with("_padding") {\n                write!(f, "{field}")?;\n            }')),
M("idx-zero",("            None => write!(f, \"{name}\", name = self.name),","            None | Some(0) => write!(f, \"{name}\", name = self.name),")),
M("idx-mod",("index = index)","index = index % 100)")),
M("drop-secs",('write!(f, "{}", self.duration)','write!(f, "{}", self.duration / 1000)')),
M("level-merge",('msg::LogLevel::Alert => "ALERT"','msg::LogLevel::Alert => "CRIT"')),
R("fmt-sep",(FM,"""        let mut sep = "";
        for field in &self.fields {
            write!(f, "{sep}{field}")?;
            sep = "; ";
        }
        Ok(())""")),
R("fmt-split",(FM,"""        if let Some((first, rest)) = self.fields.split_first() {
            write!(f, "{first}")?;
            for field in rest {
                write!(f, "; {field}")?;
            }
        }
        Ok(())""")),
R("fmt-join",(FM,"""        let all: Vec<String> = self.fields.iter().map(|x| x.to_string()).collect();
        f.write_str(&all.join("; "))""")),
R("fmt-tryfor",(FM,"""        self.fields.iter().enumerate().try_for_each(|(i, field)| {
            if i != 0 {
                f.write_str("; ")?;
            }
            field.fmt(f)
        })""")),
R("ls-iflet",(LS,"""        write!(f, "{}", self.level)?;
        if let Some(tag) = self.tag {
            write!(f, " Tag: {tag}")?;
        }
        write!(f, " {}: {}", self.timestamp, self.msg)""")),
R("ls-other",('"{} Tag: {} {}: {}"','"{} tag={} {} {}"')),
R("sub-id-hex",('"Subscription: {} msg_id: {}"','"Subscription: {} msg_id: {:#06x}"')),
R("idx-w3",("{index:02}","{index:03}")),
R("level-pad",('write!(f, "{level_str}")','f.write_str(level_str)')),

dict(id="def-sep-inverted", edits=[(D,"if !default_type_str.is_empty() {","if default_type_str.is_empty() {")], want="alarm", checks="C33"),
dict(id="def-sep-lost", edits=[(D,"""            if !default_type_str.is_empty() {
                default_type_str.push('|');
            }
""","")], want="alarm", checks="C33"),
dict(id="def-join", edits=[(D,"""        let mut default_type_str = String::with_capacity(25);

        if default_type.system_wide {
            default_type_str.push_str("SystemWide");
        }
        if default_type.configuration {
            if !default_type_str.is_empty() {
                default_type_str.push('|');
            }
            default_type_str.push_str("Configuration");
        }
""","""        let default_type_str = match (default_type.system_wide, default_type.configuration) {
            (true, true) => "SystemWide|Configuration",
            (true, false) => "SystemWide",
            (false, true) => "Configuration",
            (false, false) => "",
        };
""")], want="quiet", checks="C33"),
dict(id="def-vec", edits=[(D,"""        let mut default_type_str = String::with_capacity(25);

        if default_type.system_wide {
            default_type_str.push_str("SystemWide");
        }
        if default_type.configuration {
            if !default_type_str.is_empty() {
                default_type_str.push('|');
            }
            default_type_str.push_str("Configuration");
        }
""","""        let mut kinds = Vec::new();
        if default_type.system_wide {
            kinds.push("SystemWide");
        }
        if default_type.configuration {
            kinds.push("Configuration");
        }
        let default_type_str = kinds.join("|");
""")], want="quiet", checks="C33"),
]
