F="core/src/display.rs"
MUTS=[dict(id="sep-never",edits=[(F,"            if i > 0 {\n                write!(f, \"; \")","            if i > self.fields.len() {\n                write!(f, \"; \")")],want="alarm",checks="C36"),
dict(id="sep-inv",edits=[(F,"            if i > 0 {\n                write!(f, \"; \")","            if i == 0 {\n                write!(f, \"; \")")],want="alarm",checks="C36"),
dict(id="sep-late",edits=[(F,"            if i > 0 {\n                write!(f, \"; \")","            if i > 1 {\n                write!(f, \"; \")")],want="alarm",checks="C36"),
dict(id="one",edits=[(F,"            None => {\n                write!(f, \"{}\", self.base_type)","            None | Some(1) => {\n                write!(f, \"{}\", self.base_type)")],want="alarm",checks="C36 C33"),
dict(id="sep-ne",edits=[(F,"            if i > 0 {\n                write!(f, \"; \")","            if i != 0 {\n                write!(f, \" | \")")],want="quiet",checks="C36"),
dict(id="sep-after",edits=[(F,"            if i > 0 {\n                write!(f, \"; \")?;\n            }\n            write!(f, \"{field}\")?;","            write!(f, \"{field}\")?;\n            if i + 1 < self.fields.len() {\n                write!(f, \"; \")?;\n            }")],want="quiet",checks="C36"),
]
