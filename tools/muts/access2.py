M="core/src/model.rs"
LT="self.to_string_lossy().trim_end_matches(char::from(0)).to_string()"
def R(id,*e): return dict(id=id, edits=list(e), want="quiet", checks="C37")
def B(id,*e): return dict(id=id, edits=list(e), want="alarm", checks="C37")
MUTS=[
B("cl-ws",(M,LT,"self.to_string_lossy().trim_end_matches(|c: char| c == '\\0' || c.is_ascii_whitespace()).to_string()")),
B("cl-ctl",(M,LT,"self.to_string_lossy().trim_end_matches(|c: char| c.is_ascii_control()).to_string()")),
R("cl-nul",(M,LT,"self.to_string_lossy().trim_end_matches(|c| c == '\\0').to_string()")),
R("cl-lt",(M,LT,"self.to_string_lossy().trim_end_matches(|c: char| (c as u32) < 1).to_string()")),
R("strip",(M,LT,"{\n            let mut s = self.to_string_lossy();\n            while s.ends_with('\\0') {\n                s.pop();\n            }\n            s\n        }")),
R("trunc",(M,LT,"{\n            let mut s = self.to_string_lossy();\n            let n = s.trim_end_matches('\\0').len();\n            s.truncate(n);\n            s\n        }")),
R("bytes",(M,LT,"String::from_utf8_lossy(self.trim_end_nul().as_bytes()).into_owned()")),
]
