L="macros/src/lib.rs"; U="core/src/macro_utils.rs"
def R(id,*e): return dict(id=id, edits=list(e), want="quiet", checks="C25 C26 C27 C28")
def M(id,*e): return dict(id=id, edits=list(e), want="alarm", checks="C25 C26 C27 C28")
MUTS=[
M("it-no-remove",(L,"self.subs.remove(&sub.msg_id);\n","")),
M("it-remove-late",(L,"""                            self.subs.remove(&sub.msg_id);

""",""),(L,"""                                _ => {
                                    #extra_subscription_forwarder""","""                                _ => {
                                    self.subs.remove(&sub.msg_id);
                                    #extra_subscription_forwarder""")),
M("it-name-only",(L,"(<#ty>::__YULE_LOG_SUBSCRIPTION, <#ty>::__YULE_LOG_MULTI_ID) => {","(<#ty>::__YULE_LOG_SUBSCRIPTION, _) => {")),
M("it-clear",(L,"self.subs.remove(&sub.msg_id);","if sub.msg_id == 0 { self.subs.clear(); } self.subs.remove(&sub.msg_id);")),
M("it-swallow",(L,"Err(e) => return Some(Err(yule_log::errors::ULogError::from(e))),\n                    };\n\n                    match msg","Err(_) => continue,\n                    };\n\n                    match msg")),
M("it-end-on-err",(L,"Err(e) => return Some(Err(yule_log::errors::ULogError::from(e))),\n                    };\n\n                    match msg","Err(_) => return None,\n                    };\n\n                    match msg")),
M("it-map-err-skip",(L,"Err(e) => return Some(Err(e)),\n                    };\n\n                    self.subs","Err(_) => continue,\n                    };\n\n                    self.subs")),
M("it-data-err-skip",(L,"return Some(match *acc {\n                                    #( #logged_data_arms ),*\n                                });","let r = match *acc {\n                                    #( #logged_data_arms ),*\n                                };\n                                if r.is_err() { continue; }\n                                return Some(r);")),
M("it-forward-always",(L,"if self.forward_subscriptions {\n                return","if self.forward_subscriptions || sub.multi_id > 0 {\n                return")),
M("it-data-lost",(L,"            else {\n                return Some(Ok(#enum_name::#forward_ident(::yule_log::model::msg::UlogMessage::LoggedData(data))));\n            }","            else if self.forward_subscriptions {\n                return Some(Ok(#enum_name::#forward_ident(::yule_log::model::msg::UlogMessage::LoggedData(data))));\n            }")),
M("it-ignored-lost",(L,"            _ => {\n                return Some(Ok(#enum_name::#forward_ident(msg)));\n            }","            ::yule_log::model::msg::UlogMessage::Ignored { .. } => {}\n            _ => {\n                return Some(Ok(#enum_name::#forward_ident(msg)));\n            }")),
M("it-once",(L,"self.subs.insert(\n                        sub.msg_id,\n                        #accessor_enum_name::#var(acc),\n                    );","self.subs.entry(sub.msg_id).or_insert(#accessor_enum_name::#var(acc));"),(L,"self.subs.remove(&sub.msg_id);\n","")),
M("it-strict-case",(L,"match (sub.message_name.as_str(), sub.multi_id)","match (sub.message_name.trim_end_matches('0'), sub.multi_id)")),
M("it-multi-mask",(L,"match (sub.message_name.as_str(), sub.multi_id)","match (sub.message_name.as_str(), sub.multi_id & 0x7f)")),
M("st-multi",(L,"let multi_id = attr.multi_id.unwrap_or(0);","let multi_id = attr.multi_id.unwrap_or(0).min(2);")),
M("st-name",(L,".unwrap_or_else(|| struct_name.to_string().to_snake_case());",".unwrap_or_else(|| struct_name.to_string().to_lowercase());")),
M("st-name2",(L,"""    let subscription = attr
        .subscription_name
        .unwrap_or_else(|| struct_name.to_string().to_snake_case());""","""    let subscription = attr
        .subscription_name
        .unwrap_or_else(|| struct_name.to_string()).to_snake_case().trim_end_matches("_log").to_string();""")),
R("it-loop",(L,"while let Some(msg_res) = self.parser.next() {\n                    let msg","loop {\n                    let msg_res = match self.parser.next() { Some(r) => r, None => return None };\n                    let msg"),(L,"                    }\n                }\n\n                None\n            }\n        }\n\n        #[automatically_derived]\n        impl #enum_name","                    }\n                }\n            }\n        }\n\n        #[automatically_derived]\n        impl #enum_name")),
R("it-q",(L,"while let Some(msg_res) = self.parser.next() {\n                    let msg = match msg_res {\n                        Ok(m) => m,\n                        Err(e) => return Some(Err(yule_log::errors::ULogError::from(e))),\n                    };","while let Some(msg_res) = self.parser.by_ref().next() {\n                    let msg = match msg_res {\n                        Ok(m) => m,\n                        Err(e) => return Some(Err(e.into())),\n                    };")),
R("it-name-first",(L,"match (sub.message_name.as_str(), sub.multi_id)","let multi_id = sub.multi_id;\n                            let message_name: &str = &sub.message_name;\n                            match (message_name, multi_id)")),
R("it-get-match",(L,"if let Some(acc) = self.subs.get(&data.msg_id) {\n                                return Some(match *acc {\n                                    #( #logged_data_arms ),*\n                                });\n                            }","match self.subs.get(&data.msg_id) { Some(acc) => {\n                                let item = match *acc {\n                                    #( #logged_data_arms ),*\n                                };\n                                return Some(item);\n                            } None => {} }\n"),(L,"            else {\n                return Some(Ok(#enum_name::#forward_ident(::yule_log::model::msg::UlogMessage::LoggedData(data))));\n            }","            return Some(Ok(#enum_name::#forward_ident(::yule_log::model::msg::UlogMessage::LoggedData(data))));")),
R("it-helper",(L,"self.subs.remove(&sub.msg_id);","self.forget(sub.msg_id);"),(L,"            pub fn forward_subscriptions(&mut self, value: bool)  {\n                self.forward","            fn forget(&mut self, id: u16) {\n                self.subs.remove(&id);\n            }\n\n            pub fn forward_subscriptions(&mut self, value: bool)  {\n                self.forward")),
R("it-insert-outer",(L,"let acc = match <#ty as yule_log::macro_utils::ULogAccessorFactory>::from_format(&format) {\n                        Ok(a) => a,\n                        Err(e) => return Some(Err(e)),\n                    };\n\n                    self.subs.insert(\n                        sub.msg_id,\n                        #accessor_enum_name::#var(acc),\n                    );","match <#ty as yule_log::macro_utils::ULogAccessorFactory>::from_format(&format) {\n                        Ok(a) => { let _ = self.subs.insert(sub.msg_id, #accessor_enum_name::#var(a)); }\n                        Err(e) => return Some(Err(e)),\n                    }")),

M("bl-add-last",(L,"self.extra_allow_list.push(name.into());","self.extra_allow_list = vec![name.into()];")),
M("bl-extend-replace",(L,"self.extra_allow_list.extend(subs.into_iter().map(Into::into));","self.extra_allow_list = subs.into_iter().map(Into::into).collect();")),
M("bl-extend-skip",(L,"self.extra_allow_list.extend(subs.into_iter().map(Into::into));","self.extra_allow_list.extend(subs.into_iter().skip(1).map(Into::into));")),
M("bl-no-check",(L,"""                if !Self::HAS_FORWARD_OTHER {
                    return Err(yule_log::errors::ULogError::InvalidConfiguration(
                        "Cannot add extra subscriptions because there is no #[yule_log(forward_other)] variant configured to receive them.".to_string()
                    ));
                }
                self.extra""","""                if !Self::HAS_FORWARD_OTHER {
                    return Ok(self);
                }
                self.extra""")),
M("bl-fwd-or",(L,"                self.forward_subscriptions = value;\n\n                Ok(self)","                self.forward_subscriptions |= value;\n\n                Ok(self)")),
M("bl-fwd-nocheck",(L,"                    true => {\n                        if !Self::HAS_FORWARD_OTHER {","                    true => {\n                        if !Self::HAS_FORWARD_OTHER && !self.extra_allow_list.is_empty() {")),
M("bl-only-extra",(L,"""                let mut allow: std::collections::HashSet<String> =
                    [ #( #subscription_idents.to_string() ),* ].into_iter().collect();
                allow.extend""","""                let mut allow: std::collections::HashSet<String> = std::collections::HashSet::new();
                allow.extend""")),
M("bl-fwd-forces",(L,"result.forward_subscriptions(self.forward_subscriptions);","result.forward_subscriptions(self.forward_subscriptions || !had_none);"),(L,"result.extend_allow_list(self.extra_allow_list);","let had_none = self.extra_allow_list.is_empty();\n                result.extend_allow_list(self.extra_allow_list);")),
M("bl-skip-empty",(L,"allow.extend(extra_allow_list.iter().cloned());","allow.extend(extra_allow_list.iter().filter(|n| !n.is_empty()).cloned());")),
M("bl-lower",(L,"self.extra_allow_list.push(name.into());","self.extra_allow_list.push(name.into().to_lowercase());")),
M("st-nopad",(L,".include_padding(true)",".include_padding(false)")),
M("st-nolist",(L,"                parser.set_subscription_allow_list(allowed_subs);\n","                let _ = allowed_subs;\n")),
M("st-first-only",(L,"    let filtered_variants: Vec<_> = variant_info\n        .iter()","    let filtered_variants: Vec<_> = variant_info\n        .iter()\n        .take(6)")),
M("st-short-list",(L,"    let subscription_idents: Vec<_> = filtered_variants\n        .iter()","    let subscription_idents: Vec<_> = filtered_variants\n        .iter()\n        .take(6)")),
R("bl-early",(L,"result.extend_allow_list(self.extra_allow_list);","if !self.extra_allow_list.is_empty() {\n                    result.extend_allow_list(self.extra_allow_list);\n                }")),
R("bl-fwd-if",(L,"""                match value {
                    true => {
                        if !Self::HAS_FORWARD_OTHER {
                            return""","""                match value && !Self::HAS_FORWARD_OTHER {
                    true => {
                        {
                            return""")),
R("bl-loop",(L,"allow.extend(extra_allow_list.iter().cloned());","for name in extra_allow_list {\n                    allow.insert(name);\n                }")),
R("bl-chain",(L,"""                let mut allow: std::collections::HashSet<String> =
                    [ #( #subscription_idents.to_string() ),* ].into_iter().collect();
                allow.extend(extra_allow_list.iter().cloned());""","""                let allow: std::collections::HashSet<String> =
                    [ #( #subscription_idents.to_string() ),* ].into_iter().chain(extra_allow_list).collect();""")),
R("bl-helper",(L,"""                let allowed_subs: std::collections::HashSet<String> =
                    [ #( #subscription_idents.to_string() ),* ].into_iter().collect();
""","""                let allowed_subs = Self::mapped_names();
"""),(L,"""                let mut allow: std::collections::HashSet<String> =
                    [ #( #subscription_idents.to_string() ),* ].into_iter().collect();
                allow.""","""                let mut allow = Self::mapped_names();
                allow."""),(L,"            fn extend_allow_list(","            fn mapped_names() -> std::collections::HashSet<String> {\n                [ #( #subscription_idents ),* ].iter().map(|n| n.to_string()).collect()\n            }\n\n            fn extend_allow_list(")),
]
