# behaviour-preserving rewrites: values picked by branching, expressions split, conversions spelt differently
E_="core/src/encode.rs"; P_="core/src/parser.rs"; FH="core/src/field_helpers.rs"; D_="core/src/datastream.rs"
def R(id, checks, *e): return dict(id=id, edits=list(e), want="quiet", checks=checks)
ENC="C10 C11 C22 C35 C36"
MUTS=[
R("enc-bool-if", ENC, (E_,"            ScalarBool(v) => writer.write_all(&[*v as u8]),","            ScalarBool(v) => {\n                let byte = if *v { 1u8 } else { 0u8 };\n                writer.write_all(&[byte])\n            }")),
R("enc-bool-from", ENC, (E_,"            ScalarBool(v) => writer.write_all(&[*v as u8]),","            ScalarBool(v) => writer.write_all(&[u8::from(*v)]),")),
R("enc-bool-arr-if", ENC, (E_,"            ArrayBool(arr) => {\n                for v in arr {\n                    writer.write_all(&[*v as u8])?;","            ArrayBool(arr) => {\n                for v in arr {\n                    let byte: u8 = match *v {\n                        true => 1,\n                        false => 0,\n                    };\n                    writer.write_all(&[byte])?;")),
R("enc-bool-arr-collect", ENC, (E_,"            ArrayBool(arr) => {\n                for v in arr {\n                    writer.write_all(&[*v as u8])?;\n                }\n                Ok(())","            ArrayBool(arr) => {\n                let bytes: Vec<u8> = arr.iter().map(|b| u8::from(*b)).collect();\n                writer.write_all(&bytes)?;\n                Ok(())")),
R("enc-i8-bytes", ENC, (E_,"            ScalarI8(v) => writer.write_all(&[*v as u8]),","            ScalarI8(v) => writer.write_all(&v.to_le_bytes()),")),
R("enc-u16-collect", ENC, (E_,"            ArrayU16(arr) => {\n                for v in arr {\n                    writer.write_all(&v.to_le_bytes())?;\n                }\n                Ok(())","            ArrayU16(arr) => {\n                let mut bytes = Vec::with_capacity(arr.len() * 2);\n                for v in arr {\n                    bytes.extend_from_slice(&v.to_le_bytes());\n                }\n                writer.write_all(&bytes)")),
R("enc-u32-tryforeach", ENC, (E_,"            ArrayU32(arr) => {\n                for v in arr {\n                    writer.write_all(&v.to_le_bytes())?;\n                }\n                Ok(())","            ArrayU32(arr) => {\n                arr.iter().try_for_each(|v| writer.write_all(&v.to_le_bytes()))")),
R("enc-cont-if", ENC, (E_,"        writer.write_all(&[self.is_continued as u8])?;","        let flag: u8 = if self.is_continued { 1 } else { 0 };\n        writer.write_all(&[flag])?;")),
R("enc-other-encode", ENC, (E_,"                for sub_field in &fmt.fields {\n                    sub_field.encode(writer)?;\n                }\n                Ok(())\n            }\n\n            ArrayU8","                fmt.fields.iter().try_for_each(|f| f.encode(writer))\n            }\n\n            ArrayU8")),
R("enc-ls-match", ENC, (E_,"        if let Some(tag) = self.tag {\n            writer.write_all(&tag.to_le_bytes())?;\n        }\n","        match &self.tag {\n            Some(tag) => writer.write_all(&tag.to_le_bytes())?,\n            None => (),\n        }\n")),
R("enc-ls-buf", ENC, (E_,"        writer.write_all(&self.timestamp.to_le_bytes())?;\n        writer.write_all(self.msg.as_bytes())?;\n        Ok(())","        let mut tail = self.timestamp.to_le_bytes().to_vec();\n        tail.extend_from_slice(self.msg.as_bytes());\n        writer.write_all(&tail)")),
R("enc-typeexpr-format", ENC, (E_,"            writer.write_all(b\"[\")?;\n            writer.write_all(array_size.to_string().as_bytes())?;\n            writer.write_all(b\"]\")?;","            write!(writer, \"[{}]\", array_size)?;")),
R("enc-key-helper", ENC, (E_,"impl Encode for msg::Parameter {\n    fn encode<W: Write>(&self, writer: &mut W) -> io::Result<()> {\n        let mut key_bytes: Vec<u8> = self.r#type.encode_to_vec()?;\n        key_bytes.push(b' ');\n        key_bytes.extend_from_slice(self.key.as_bytes());\n\n        writer.write_all(&[key_len(&key_bytes)?])?;\n        writer.write_all(&key_bytes)?;\n        self.value.encode(writer)?;","fn write_key<W: Write>(writer: &mut W, ty: &def::TypeExpr, key: &str) -> io::Result<()> {\n    let mut bytes = ty.encode_to_vec()?;\n    bytes.push(b' ');\n    bytes.extend(key.bytes());\n    let n = key_len(&bytes)?;\n    writer.write_all(&[n])?;\n    writer.write_all(&bytes)\n}\n\nimpl Encode for msg::Parameter {\n    fn encode<W: Write>(&self, writer: &mut W) -> io::Result<()> {\n        write_key(writer, &self.r#type, &self.key)?;\n        self.value.encode(writer)?;")),
R("fmt-loop-while", ENC, (E_,"        for field in &self.fields {\n            field.encode(writer)?;\n            writer.write_all(b\";\")?;\n        }\n        Ok(())","        let mut i = 0;\n        while i < self.fields.len() {\n            self.fields[i].encode(writer)?;\n            writer.write_all(b\";\")?;\n            i += 1;\n        }\n        Ok(())")),
R("filter-match", "C09 C17 C18 C24", (P_,"            if field.name.as_ref() == \"timestamp\" {\n                return include_timestamp;\n            }\n\n            if field.name.starts_with(\"_padding\") {\n                return include_padding;\n            }\n\n            true","            let name: &str = field.name.as_ref();\n            match name {\n                \"timestamp\" => include_timestamp,\n                n if n.starts_with(\"_padding\") => include_padding,\n                _ => true,\n            }")),
R("filter-bool-expr", "C09 C17 C18 C24", (P_,"            if field.name.as_ref() == \"timestamp\" {\n                return include_timestamp;\n            }\n\n            if field.name.starts_with(\"_padding\") {\n                return include_padding;\n            }\n\n            true","            let is_ts = field.name.as_ref() == \"timestamp\";\n            let is_pad = field.name.starts_with(\"_padding\");\n            (include_timestamp || !is_ts) && (include_padding || !is_pad)")),
R("ds-bool-match", "C12 C13 C25 C26", (D_,"        Ok(buf[0] != 0)","        Ok(!matches!(buf[0], 0))")),
R("fh-char", "C08 C09 C10", (FH,"        Ok(buf.take_u8()? as char)","        buf.take_u8().map(char::from)")),
R("fh-bool-map", "C09 C10", (FH,"        Ok(buf.take_u8()? != 0)","        buf.take_u8().map(|b| b > 0)")),
]
