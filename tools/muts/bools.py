FH="core/src/field_helpers.rs"
def R(id,*e): return dict(id=id, edits=list(e), want="quiet", checks="C09 C10 C35")
MUTS=[
R("bool-match",(FH,"        Ok(buf.take_u8()? != 0)","        match buf.take_u8()? {\n            0 => Ok(false),\n            _ => Ok(true),\n        }")),
R("bool-if",(FH,"        Ok(buf.take_u8()? != 0)","        let b = buf.take_u8()?;\n        if b == 0 {\n            return Ok(false);\n        }\n        Ok(true)")),
]
MUTS += [dict(id=i, edits=[(FH, "        Ok(buf.take_u8()? != 0)", n)], want="alarm", checks="C09 C10") for i, n in (
("bool-match-inv", "        match buf.take_u8()? {\n            0 => Ok(true),\n            _ => Ok(false),\n        }"),
("bool-match-one", "        match buf.take_u8()? {\n            1 => Ok(true),\n            _ => Ok(false),\n        }"),
("bool-if-two", "        let b = buf.take_u8()?;\n        if b <= 1 {\n            return Ok(false);\n        }\n        Ok(true)"),
)]
