N="core/src/encode.rs"
def B(id,*e): return dict(id=id, edits=list(e), want="alarm", checks="C10 C11")
MUTS=[
B("e100",(N,"        writer.write_all(&[self.level as u8])?;","        writer.write_all(&[self.level as u8]).unwrap_or_default();")),
B("e191",(N,"writer.write_all(&[self.level as u8])?;","writer.write_all(&[self.level as u8]).ok();")),
B("e163",(N,"                    for sub_field in &fmt.fields {\n                        sub_field.encode(writer)?;","                    for sub_field in &fmt.fields {\n                        sub_field.encode(writer).unwrap_or_default();")),
]
