P="core/src/parser.rs"; B="core/src/builder.rs"; MB="core/src/message_buf.rs"; MA="macros/src/lib.rs"
def R(id,*e): return dict(id=id, edits=list(e), want="quiet", checks="C39")
def A(id,*e): return dict(id=id, edits=list(e), want="alarm", checks="C39")
OFF="""                        .iter()
                        .find(|&&offset| offset > 0)
                        .map(|&offset| offset as usize);"""
NAMES="let names: HashSet<String> = subscr_names.into_iter().collect::<HashSet<_>>();"
MUTS=[
A("offset-set",(P,OFF,"""                        .iter()
                        .filter(|&&offset| offset > 0)
                        .collect::<HashSet<_>>()
                        .into_iter()
                        .next()
                        .map(|&offset| offset as usize);""")),
A("offset-for",(P,"""                    self.max_bytes_to_read = flag_bits
                        .appended_data_offsets
"""+OFF,"""                    let offsets: HashSet<u64> = flag_bits.appended_data_offsets.iter().copied().filter(|&o| o > 0).collect();
                    let mut all: Vec<u64> = Vec::new();
                    for o in &offsets {
                        all.push(*o);
                    }
                    self.max_bytes_to_read = all.first().map(|&o| o as usize);""")),
A("names-vec",(P,NAMES,NAMES+"""
        let order: Vec<&String> = names.iter().collect();
        let names: HashSet<String> = order.iter().take(200).map(|s| s.to_string()).collect();""")),
A("ne",(MB,"map(LittleEndian::read_u32)","map(byteorder::NativeEndian::read_u32)")),
A("ne-enc",("core/src/encode.rs","        writer.write_all(&self.timestamp.to_le_bytes())?;\n        writer.write_all(self.msg","        writer.write_all(&self.timestamp.to_ne_bytes())?;\n        writer.write_all(self.msg")),
R("min-offset",(P,OFF,"""                        .iter()
                        .copied()
                        .filter(|&offset| offset > 0)
                        .collect::<HashSet<u64>>()
                        .into_iter()
                        .min()
                        .map(|offset| offset as usize);""")),
R("count",(P,NAMES,NAMES+"\n        log::debug!(\"{} names: {:?}\", names.iter().filter(|n| !n.is_empty()).count(), names);")),
R("loop",(P,NAMES,"let mut names: HashSet<String> = HashSet::new();\n        for n in subscr_names {\n            names.insert(n);\n        }")),
R("copyset",(P,NAMES,NAMES+"\n        let mut copy: HashSet<String> = HashSet::with_capacity(names.len());\n        for n in &names {\n            copy.insert(n.clone());\n        }\n        let names = copy;")),
R("sorted",(P,NAMES,NAMES+"\n        let mut order: Vec<String> = names.into_iter().collect();\n        order.sort();\n        let names: HashSet<String> = order.into_iter().collect();")),
]
