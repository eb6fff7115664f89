MB="core/src/message_buf.rs"; DS="core/src/datastream.rs"
def A(id,checks,*e): return dict(id=id, edits=list(e), checks=checks)
def R(id,*e): return dict(id=id, edits=list(e), want="quiet", checks="C30 C31 C01 C03 C07 C08 C09")
ADV="""        if size > self.len() {
            Err(ULogError::ParseError(format!(
                "MessageBuf: Out of bounds: tried to read {} bytes, but only {} remaining",
                size,
                self.buf.len() - self.current_index
            )))
        } else {
            let bytes = &self.buf[self.current_index..self.current_index + size];
            self.current_index += size;
            Ok(bytes)
        }
"""
ERRS="""Err(ULogError::ParseError(format!(
                "MessageBuf: Out of bounds: tried to read {} bytes, but only {} remaining",
                size,
                self.buf.len() - self.current_index
            )))"""
RX="""        match self.reader.read_exact(buf) {
            Ok(()) => Ok(buf.len()),
            Err(err) => match err.kind() {
                // Eof is not technically an error, so signal it by reporting 0 bytes read and setting eof true.
                ErrorKind::UnexpectedEof => {
                    self.eof = true;
                    Ok(0)
                }
                _ => Err(ULogError::Io(err)),
            },
        }
"""
SK="""        let mut total_skipped = 0;
        while total_skipped < num_bytes {
            // Calculate how many bytes remaining to skip
            let bytes_to_skip = num_bytes - total_skipped;

            // Attempt to read bytes without storing them
            let bytes_read = self
                .reader
                .by_ref()
                .take(bytes_to_skip as u64)
                .read_to_end(&mut vec![])
                .map_err(ULogError::Io)?;

            if bytes_read == 0 {
                break; // End of stream reached
            }
            total_skipped += bytes_read;
        }
"""
MUTS=[
A("adv-off1","C30",(MB,"if size > self.len() {","if size > self.len() + 1 {")),
A("adv-ge","C30",(MB,"if size > self.len() {","if size >= self.len() && size > 8 {")),
A("adv-add","C30",(MB,"if size > self.len() {","if self.current_index + size > self.buf.len() {")),
A("adv-consume","C30",(MB,"            Err(ULogError::ParseError(format!(","            self.current_index = self.buf.len();\n            Err(ULogError::ParseError(format!(")),
A("adv-cap","C30",(MB,"self.current_index += size;","self.current_index += size.min(u16::MAX as usize);")),
A("take-be","C30",(MB,"self.advance(size_of::<i64>()).map(LittleEndian::read_i64)","self.advance(size_of::<i64>()).map(byteorder::BigEndian::read_i64)")),
A("take-width","C30",(MB,"self.advance(size_of::<f32>()).map(LittleEndian::read_f32)","self.advance(size_of::<f64>()).map(LittleEndian::read_f32)")),
A("take-bool","C30",(MB,"bytes[0] != 0","bytes[0] == 1")),
A("remaining-all","C30",(MB,"self.buf[self.current_index..].to_vec()","self.buf[self.current_index.min(1)..].to_vec()")),
A("skip-sat","C30",(MB,"        self.advance(size).map(|_| ()) // Discard the result of advance","        if size > self.len() {\n            self.current_index = self.buf.len();\n            return Ok(());\n        }\n        self.advance(size).map(|_| ())")),
A("new-at","C30",(MB,"""    pub fn from_vec(buf: Vec<u8>) -> Self {
        Self {
            buf,
            current_index: 0,""","""    pub fn from_vec(buf: Vec<u8>) -> Self {
        let current_index = usize::from(buf.first() == Some(&0xEF) && buf.len() > 3);
        Self {
            buf,
            current_index,""")),
A("peek-empty","C30",(MB,"self.len() == 0","self.len() <= 1")),
A("ds-u32","C31",(DS,"""        let mut buf = [0; 4];
        self.read_exact(&mut buf)?;
        Ok(LittleEndian::read_u32(&buf))""","""        let mut buf = [0; 3];
        self.read_exact(&mut buf)?;
        Ok(LittleEndian::read_u24(&buf))""")),
A("ds-bool","C31",(DS,"Ok(buf[0] != 0)","Ok(buf[0] & 1 != 0)")),
A("ds-f32","C31",(DS,"Ok(LittleEndian::read_f32(&buf))","Ok(byteorder::BigEndian::read_f32(&buf))")),
A("ds-string-lossy","C31",(DS,"String::from_utf8(buf).map_err(ULogError::Utf8)","Ok(String::from_utf8_lossy(&buf).into_owned())")),
A("ds-string-trim","C31",(DS,"let mut buf = vec![0; len];","let mut buf = vec![0; len.min(255)];")),
A("ds-eof-zero","C31",(DS,"                    self.eof = true;\n                    Ok(0)","                    self.eof = !buf.is_empty() && self.num_bytes_read > 16;\n                    Ok(0)")),
A("ds-err-eof","C31",(DS,"                _ => Err(ULogError::Io(err)),","                ErrorKind::WouldBlock => {\n                    self.eof = true;\n                    Ok(0)\n                }\n                _ => Err(ULogError::Io(err)),")),
A("ds-err-drop","C31",(DS,"                ErrorKind::UnexpectedEof => {","                ErrorKind::UnexpectedEof | ErrorKind::ConnectionReset => {")),
A("ds-count-late","C31",(DS,"        self.num_bytes_read += buf.len();\n\n        match self.reader.read_exact(buf) {\n            Ok(()) => Ok(buf.len()),","        match self.reader.read_exact(buf) {\n            Ok(()) => {\n                self.num_bytes_read += buf.len();\n                Ok(buf.len())\n            }")),
A("skip-over","C31",(DS,".take(bytes_to_skip as u64)",".take(num_bytes as u64)")),
A("skip-count","C31",(DS,"self.num_bytes_read += total_skipped;","self.num_bytes_read += num_bytes;")),
A("skip-report","C31",(DS,"        Ok(total_skipped)\n","        Ok(num_bytes)\n")),
A("skip-u16","C31",(DS,".take(bytes_to_skip as u64)",".take((bytes_to_skip as u64).next_multiple_of(2))")),
A("skip-err","C31",(DS,"                .map_err(ULogError::Io)?;\n\n            if","                .unwrap_or(0);\n\n            if")),
R("adv-get",(MB,ADV,"""        match self.buf.get(self.current_index..self.current_index.saturating_add(size)) {
            Some(bytes) => {
                self.current_index += size;
                Ok(bytes)
            }
            None => """+ERRS+""",
        }
""")),
R("adv-checked",(MB,ADV,"""        let end = match self.current_index.checked_add(size) {
            Some(end) if end <= self.buf.len() => end,
            _ => return """+ERRS+""",
        };
        let start = std::mem::replace(&mut self.current_index, end);
        Ok(&self.buf[start..end])
""")),
R("adv-early",(MB,ADV,"""        let remaining = self.len();
        if remaining < size {
            return """+ERRS+""";
        }
        let start = self.current_index;
        self.current_index = start + size;
        Ok(&self.buf[start..self.current_index])
""")),
R("adv-split",(MB,ADV,"""        if size > self.len() {
            return """+ERRS+""";
        }
        let (bytes, _) = self.buf[self.current_index..].split_at(size);
        self.current_index += size;
        Ok(bytes)
""")),
R("take-fromle",(MB,"self.advance(size_of::<u32>()).map(LittleEndian::read_u32)","let bytes = self.advance(4)?;\n        Ok(u32::from_le_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]))")),
R("take-tryinto",(MB,"self.advance(size_of::<u64>()).map(LittleEndian::read_u64)","let bytes: [u8; 8] = self.advance(8)?.try_into().unwrap();\n        Ok(u64::from_le_bytes(bytes))")),
R("len-match",(MB,"self.len() == 0","self.current_index >= self.buf.len()")),
R("remaining-split",(MB,"    pub fn into_remaining_bytes(self) -> Vec<u8> {\n        self.buf[self.current_index..].to_vec()","    pub fn into_remaining_bytes(mut self) -> Vec<u8> {\n        self.buf.split_off(self.current_index)")),
R("remaining-drain",(MB,"    pub fn into_remaining_bytes(self) -> Vec<u8> {\n        self.buf[self.current_index..].to_vec()","    pub fn into_remaining_bytes(self) -> Vec<u8> {\n        self.buf.into_iter().skip(self.current_index).collect()")),
R("skip-advance",(MB,"        self.advance(size).map(|_| ()) // Discard the result of advance","        self.advance(size)?;\n        Ok(())")),
R("ds-if",(DS,RX,"""        if let Err(err) = self.reader.read_exact(buf) {
            if err.kind() == ErrorKind::UnexpectedEof {
                self.eof = true;
                return Ok(0);
            }
            return Err(ULogError::Io(err));
        }
        Ok(buf.len())
""")),
R("ds-guard",(DS,RX,"""        match self.reader.read_exact(buf) {
            Ok(()) => Ok(buf.len()),
            Err(err) if err.kind() == ErrorKind::UnexpectedEof => {
                self.eof = true;
                Ok(0)
            }
            Err(err) => Err(err.into()),
        }
""")) ,
R("ds-array",(DS,"""        let mut buf = [0; 4];
        self.read_exact(&mut buf)?;
        Ok(LittleEndian::read_u32(&buf))""","""        Ok(u32::from_le_bytes(self.read_array()?))"""),(DS,"    pub fn read_u8(&mut self)","""    fn read_array<const N: usize>(&mut self) -> Result<[u8; N], ULogError> {
        let mut buf = [0; N];
        self.read_exact(&mut buf)?;
        Ok(buf)
    }

    pub fn read_u8(&mut self)""")),
R("ds-string-match",(DS,"        String::from_utf8(buf).map_err(ULogError::Utf8)","        match String::from_utf8(buf) {\n            Ok(s) => Ok(s),\n            Err(e) => Err(ULogError::Utf8(e)),\n        }")),
R("skip-loop",(DS,"        let mut total_skipped = 0;\n        while total_skipped < num_bytes {","        let mut total_skipped = 0;\n        loop {\n            if total_skipped >= num_bytes {\n                break;\n            }")),
R("skip-remaining",(DS,SK,"""        let mut remaining = num_bytes;
        while remaining > 0 {
            let bytes_read = self
                .reader
                .by_ref()
                .take(remaining as u64)
                .read_to_end(&mut vec![])
                .map_err(ULogError::Io)?;
            if bytes_read == 0 {
                break; // End of stream reached
            }
            remaining -= bytes_read;
        }
        let total_skipped = num_bytes - remaining;
""")),
R("skip-copy",(DS,SK,"""        let total_skipped = std::io::copy(
            &mut self.reader.by_ref().take(num_bytes as u64),
            &mut std::io::sink(),
        )? as usize;
""")),
R("skip-once",(DS,SK,"""        let mut skipped = Vec::new();
        let total_skipped = self
            .reader
            .by_ref()
            .take(num_bytes as u64)
            .read_to_end(&mut skipped)
            .map_err(ULogError::Io)?;
""")),
]
