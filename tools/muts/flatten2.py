M="core/src/model.rs"
def R(id,*e): return dict(id=id, edits=list(e), want="quiet", checks="C32")
def B(id,*e): return dict(id=id, edits=list(e), want="alarm", checks="C32")
MUTS=[
B("no-elems",(M,"                    flattened.extend(self.flatten_data_type(array_path, &value));\n","                    let _ = self.flatten_data_type(array_path, &value);\n")),
B("no-single",(M,"                for (index, value) in vec_of_scalars.into_iter().enumerate() {\n","                if vec_of_scalars.len() == 1 {\n                    continue;\n                }\n                for (index, value) in vec_of_scalars.into_iter().enumerate() {\n")),
R("empty-guard",(M,"                for (index, value) in vec_of_scalars.into_iter().enumerate() {\n","                if vec_of_scalars.is_empty() {\n                    continue;\n                }\n                for (index, value) in vec_of_scalars.into_iter().enumerate() {\n")),
R("match-split",(M,"let vec_of_scalars = field.value.to_scalars().unwrap();","let vec_of_scalars = match field.value.to_scalars() {\n                    Some(v) => v,\n                    None => continue,\n                };")),
]
