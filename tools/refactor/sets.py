"""Edits of cbored that keep its behaviour: the checks named must stay quiet on each set."""
R, L, H, ST, V, W, STR, D, P, FL, SC, SS, T, C, PR, SU, E = ("src/reader.rs", "src/lowlevel/lead.rs", "src/lowlevel/header.rs", "src/state.rs", "src/validate.rs", "src/writer.rs", "src/types/structure.rs",
  "src/decode.rs", "src/prim.rs", "src/types/float.rs", "src/types/scalar.rs", "src/types/streamable.rs", "src/tagged.rs", "src/context.rs", "cbored-derive/src/product.rs", "cbored-derive/src/sum.rs", "src/encode.rs")
SETS = {}
def X(name, props, edits): SETS[name] = (props.split(), edits)

X("context-get", "C02 C15 C03", [(C, """        if n == 0 {
            return Ok(&[]);
        }
        let rem = self.remaining_bytes();""", """        if n == 0 {
            return Ok(&[]);
        }
        if let Some(found) = self
            .data
            .get(self.index..)
            .and_then(|rest| rest.get(offset..))
            .and_then(|rest| offset.checked_add(n).map(|_| rest))
            .and_then(|rest| rest.get(..n))
        {
            return Ok(found);
        }
        let rem = self.remaining_bytes();""")])
X("lead-masks", "C01 C02 C06 C08", [(L, """        // only 3 bits
        match v >> 5 {
            0 => Major::Positive,
            1 => Major::Negative,
            2 => Major::Bytes,
            3 => Major::Text,
            4 => Major::Array,
            5 => Major::Map,
            6 => Major::Tag,
            7 => Major::Other,
            _ => unreachable!(),
        }""", """        const MAJORS: [Major; 8] = [
            Major::Positive,
            Major::Negative,
            Major::Bytes,
            Major::Text,
            Major::Array,
            Major::Map,
            Major::Tag,
            Major::Other,
        ];
        MAJORS[(v >> 5) as usize]"""),
  (L, """    pub fn to_value(self) -> u8 {
        match self {
            Major::Positive => 0,
            Major::Negative => 1,
            Major::Bytes => 2,
            Major::Text => 3,
            Major::Array => 4,
            Major::Map => 5,
            Major::Tag => 6,
            Major::Other => 7,
        }
    }""", """    pub fn to_value(self) -> u8 {
        self as u8
    }"""),
  (L, """        match self {
            IndirectLen::I1 => 1,
            IndirectLen::I2 => 2,
            IndirectLen::I4 => 4,
            IndirectLen::I8 => 8,
        }""", "        1usize << (self as u32)"),
  (L, """            0x18 => Ok(Self::Indirect(IndirectLen::I1)),
            0x19 => Ok(Self::Indirect(IndirectLen::I2)),
            0x1a => Ok(Self::Indirect(IndirectLen::I4)),
            0x1b => Ok(Self::Indirect(IndirectLen::I8)),
            0x1c..=0x1e => Err(LeadError::Reserved(byte)),
            0x1f => Ok(Self::Stream),
            _ => unreachable!(),
        }""", """            0x1f => Ok(Self::Stream),
            _ => match Content::from_byte(byte)? {
                Content::Imm(v) => Ok(Self::Imm(v)),
                Content::Indirect(i) => Ok(Self::Indirect(i)),
            },
        }""")])
X("header-arith", "C05 C06 C11", [(H, """    pub fn to_size(self) -> usize {
        match self {
            HeaderValue::Imm(u) => u as usize,
            HeaderValue::U8(u) => u as usize,
            HeaderValue::U16(u) => u as usize,
            HeaderValue::U32(u) => u as usize,
            HeaderValue::U64(u) => u as usize,
        }
    }""", """    pub fn to_size(self) -> usize {
        self.to_u64() as usize
    }"""),
  (H, """        match v {
            _ if v < 24 => Self::Imm(v as u8),
            _ if v < 0x100 => Self::U8(v as u8),
            _ if v < 0x10000 => Self::U16(v as u16),
            _ if v < 0x100000000 => Self::U32(v as u32),
            _ => Self::U64(v),
        }""", """        if v < 24 {
            return Self::Imm(v as u8);
        }
        if let Ok(v) = u8::try_from(v) {
            return Self::U8(v);
        }
        match (u16::try_from(v), u32::try_from(v)) {
            (Ok(v), _) => Self::U16(v),
            (Err(_), Ok(v)) => Self::U32(v),
            (Err(_), Err(_)) => Self::U64(v),
        }"""),
  (H, """        match self {
            // don't check if imm is < 24, as it shouldn't be allowed
            HeaderValue::Imm(_) => true,
            HeaderValue::U8(v) => *v >= 24,
            HeaderValue::U16(v) => *v >= 0x100,
            HeaderValue::U32(v) => *v >= 0x10000,
            HeaderValue::U64(v) => *v >= 0x100000000,
        }""", """        // don't check if imm is < 24, as it shouldn't be allowed
        let bits = 64 - self.to_u64().leading_zeros();
        match self {
            HeaderValue::Imm(_) => true,
            HeaderValue::U8(v) => *v >= 24,
            HeaderValue::U16(_) => bits > 8,
            HeaderValue::U32(_) => bits > 16,
            HeaderValue::U64(_) => bits > 32,
        }"""),
  (SC, """        i64::try_from(self.0.to_u64())
            .ok()
            .and_then(|v| (-1i64).checked_sub(v))""", """        let denoted = -1i128 - self.0.to_u64() as i128;
        if denoted < i64::MIN as i128 {
            None
        } else {
            Some(denoted as i64)
        }""")])
X("reader-chunks", "C01 C02 C13 C04 C09", [(R, """    pub fn bytes(&mut self) -> Result<Bytes<'a>, ReaderError> {
        let (hdr, advance) = self.header()?;
        let content = matches_type!(hdr, Type::Bytes, Header::Bytes)?;
        self.reader.advance(advance);
        match content {
            // indefinite bytes
            None => {
                let mut out = Vec::new();
                loop {
                    let (hdr, advance) = self.header()?;
                    self.reader.advance(advance);
                    match hdr {
                        Header::Break => {
                            break;
                        }
                        Header::Bytes(t) => match t {
                            None => return Err(ReaderError::BytesChunksInBytesChunks),
                            Some(b) => {
                                let sz = b.to_size();
                                let data = self.expect(CborDataContext::Content, sz)?;
                                out.push(BytesData(b, data));
                            }
                        },
                        _ => {
                            return Err(ReaderError::WrongExpectedTypeInBytes {
                                got: hdr.to_type(),
                            });
                        }
                    }
                }
                Ok(Bytes::Chunks(out))
            }
            // immediate bytes
            Some(b) => {
                let sz = b.to_size();
                let data = self.expect(CborDataContext::Content, sz)?;
                Ok(Bytes::Imm(BytesData(b, data)))
            }
        }
    }
""", """    /// content of a definite byte string, the header of which has been read
    fn bytes_data(&mut self, b: HeaderValue) -> Result<BytesData<'a>, ReaderError> {
        self.expect(CborDataContext::Content, b.to_size())
            .map(|data| BytesData(b, data))
    }

    /// next chunk of an indefinite byte string, or none at its break
    fn bytes_chunk(&mut self) -> Result<Option<BytesData<'a>>, ReaderError> {
        let (hdr, advance) = self.header()?;
        self.reader.advance(advance);
        if let Header::Break = hdr {
            return Ok(None);
        }
        let len = if let Header::Bytes(len) = hdr {
            len.ok_or(ReaderError::BytesChunksInBytesChunks)?
        } else {
            return Err(ReaderError::WrongExpectedTypeInBytes {
                got: hdr.to_type(),
            });
        };
        self.bytes_data(len).map(Some)
    }

    pub fn bytes(&mut self) -> Result<Bytes<'a>, ReaderError> {
        let (hdr, advance) = self.header()?;
        let content = matches_type!(hdr, Type::Bytes, Header::Bytes)?;
        self.reader.advance(advance);
        if let Some(b) = content {
            return self.bytes_data(b).map(Bytes::Imm);
        }
        let mut out = Vec::with_capacity(4);
        while let Some(chunk) = self.bytes_chunk()? {
            out.push(chunk);
        }
        Ok(Bytes::Chunks(out))
    }
"""),
 (R, """        let data = self.expect(CborDataContext::Content, sz)?;
        let data_str = std::str::from_utf8(data).map_err(|err| ReaderError::TextUTF8Error(err))?;
        Ok(TextData(b, data_str))""", """        self.expect(CborDataContext::Content, sz)
            .and_then(|data| std::str::from_utf8(data).map_err(ReaderError::TextUTF8Error))
            .map(|data_str| TextData(b, data_str))""")])
X("reader-collect", "C12 C02 C04 C01", [(R, """            Some(len) => {
                let sz = len.to_size();
                for _ in 0..sz {
                    let data = self.cbor_slice_neutral()?;
                    elements.push(data);
                }

                Ok(Array {
                    len_encoding: content.into(),
                    elements,
                })
            }""", """            Some(len) => {
                let elements = (0..len.to_size())
                    .map(|_| self.cbor_slice_neutral())
                    .collect::<Result<Vec<_>, ReaderError>>()?;
                Ok(Array {
                    len_encoding: content.into(),
                    elements,
                })
            }"""),
  (R, """                for _ in 0..sz {
                    let key = self.cbor_slice_neutral()?;
                    let value = self.cbor_slice_neutral()?;
                    elements.push((key, value));
                }
""", """                let mut left = sz;
                while left > 0 {
                    left -= 1;
                    elements.push((self.cbor_slice_neutral()?, self.cbor_slice_neutral()?));
                }
"""),
  (R, """        let start = self.reader.index;
        let mut state = State::new();
        loop {
            let (header, advance) = self.header()?;
            self.reader.advance(advance);

            self.advance_data(&header)?;
            state_process_header(&mut state, header)?;
            if state.acceptable() {
                break;
            }
        }
        let data = self.reader.slice_from(start);
        Ok(data)""", """        let start = self.reader.index;
        let mut state = State::new();
        self.step_in(&mut state)?;
        while !state.acceptable() {
            self.step_in(&mut state)?;
        }
        Ok(self.reader.slice_from(start))"""),
  (R, """    /// return the slice of data of one next element (whatever it is)
""", """    fn step_in(&mut self, state: &mut State) -> Result<(), ReaderError> {
        let (header, advance) = self.header()?;
        self.reader.advance(advance);
        self.advance_data(&header)?;
        state_process_header(state, header)
    }

    /// return the slice of data of one next element (whatever it is)
""")])
X("state-stack", "C14 C02 C03", [(ST, """            Some(StructTy::Array(elements)) => {
                if elements > 0 {
                    Err(StateError::StructureNotFinished)
                } else {
                    Ok(())
                }
            }
            Some(StructTy::Map {
                elements,
                exp_val: _,
            }) => {
                if elements > 0 {
                    Err(StateError::StructureNotFinished)
                } else {
                    Ok(())
                }
            }""", """            Some(StructTy::Array(elements)) | Some(StructTy::Map { elements, .. })
                if elements > 0 =>
            {
                Err(StateError::StructureNotFinished)
            }
            Some(StructTy::Array(_)) | Some(StructTy::Map { .. }) => Ok(()),"""),
  (ST, """        loop {
            //self.advance()?;
            match self.ctx.last() {
                Some(structure) if structure.reduceable() => {
                    self.reduce()?;
                    self.advance()?;
                }
                _ => break,
            }
        }
        Ok(())""", """        while self.ctx.last().map_or(false, |s| s.reduceable()) {
            self.reduce()?;
            self.advance()?;
        }
        Ok(())"""),
  (ST, """    pub fn simple(&mut self) -> Result<(), StateError> {
        match self.ctx.last() {
            Some(StructTy::Stream(s)) if s.composite_scalar() => {
                return Err(StateError::InvalidTypeInChunk);
            }
            _ => (),
        };""", """    pub fn simple(&mut self) -> Result<(), StateError> {
        if self.in_chunks() {
            return Err(StateError::InvalidTypeInChunk);
        }"""),
  (ST, """    pub fn tag(&mut self) -> Result<(), StateError> {
        match self.ctx.last() {
            Some(StructTy::Stream(s)) if s.composite_scalar() => {
                return Err(StateError::TagInChunk);
            }
            _ => (),
        };
""", """    pub fn tag(&mut self) -> Result<(), StateError> {
        if self.in_chunks() {
            return Err(StateError::TagInChunk);
        }
"""),
  (ST, """    // text or bytes
    fn item_streamable(""", """    fn in_chunks(&self) -> bool {
        matches!(self.ctx.last(), Some(StructTy::Stream(s)) if s.composite_scalar())
    }

    // text or bytes
    fn item_streamable("""),
  (ST, "        Self { ctx: vec![] }", "        Self {\n            ctx: Vec::with_capacity(8),\n        }"),
  (ST, """                    assert_ne!(*elements, 0, "elements is empty");
                    // if in a value, then we decrement and set the exp back to false to expect a key
                    // otherwise in a key, we just set the exp value to true.
                    if *exp_val {
                        *exp_val = false;
                        *elements = *elements - 1;
                    } else {
                        *exp_val = true;
                    }
                    Ok(())""", """                    debug_assert!(*elements > 0, "elements is empty");
                    // a value completes its pair
                    *elements -= usize::from(*exp_val);
                    *exp_val = !*exp_val;
                    Ok(())""")])
X("state-map-frames", "C14 C03 C12", [(ST, "    ctx: Vec<StructTy>,", "    ctx: std::collections::VecDeque<StructTy>,"), (ST, "        Self { ctx: vec![] }", "        Self {\n            ctx: Default::default(),\n        }"),
  *[(ST, (".ctx.last()", 0), ".ctx.back()")] * 5, (ST, ".ctx.last_mut()", ".ctx.back_mut()"), *[(ST, (".ctx.pop()", 0), ".ctx.pop_back()")] * 2, *[(ST, (".ctx.push(", 0), ".ctx.push_back(")] * 3])
X("validate-shared", "C03 C15 C04", [(V, """            IndirectLen::I1 => {
                let len_slice = self.peek_at(CborDataContext::IndirectLen, 1, 1)?;
                Ok(IndirectValue::U8(len_slice[0]))
            }
            IndirectLen::I2 => {
                let mut data = [0u8; 2];
                data.copy_from_slice(self.peek_at(CborDataContext::IndirectLen, 1, 2)?);
                Ok(IndirectValue::U16(u16::from_be_bytes(data)))
            }
            IndirectLen::I4 => {
                let mut data = [0u8; 4];
                data.copy_from_slice(self.peek_at(CborDataContext::IndirectLen, 1, 4)?);
                Ok(IndirectValue::U32(u32::from_be_bytes(data)))
            }
            IndirectLen::I8 => {
                let mut data = [0u8; 8];
                data.copy_from_slice(self.peek_at(CborDataContext::IndirectLen, 1, 8)?);
                Ok(IndirectValue::U64(u64::from_be_bytes(data)))
            }""", """            IndirectLen::I1 => self.number(1).map(|v| IndirectValue::U8(v as u8)),
            IndirectLen::I2 => self.number(2).map(|v| IndirectValue::U16(v as u16)),
            IndirectLen::I4 => self.number(4).map(|v| IndirectValue::U32(v as u32)),
            IndirectLen::I8 => self.number(8).map(IndirectValue::U64),"""),
  (V, """    /// peek the data type
""", """    fn number(&self, n: usize) -> Result<u64, ValidateError> {
        Ok(self
            .peek_at(CborDataContext::IndirectLen, 1, n)?
            .iter()
            .fold(0u64, |acc, b| acc << 8 | u64::from(*b)))
    }

    /// peek the data type
"""),
  (V, """            Header::Bytes(c) => {
                self.consume_data_streamable(c)?;
                self.state.bytes(c)?
            }""", """            Header::Bytes(c) => self
                .consume_data_streamable(c)
                .and_then(|()| self.state.bytes(c).map_err(ValidateError::from))?,""")])
X("reader-number", "C01 C06 C15 C07", [(R, """            IndirectLen::I2 => {
                let mut data = [0u8; 2];
                data.copy_from_slice(self.peek_at(CborDataContext::IndirectLen, 1, 2)?);
                Ok(IndirectValue::U16(u16::from_be_bytes(data)))
            }""", """            IndirectLen::I2 => match self.peek_at(CborDataContext::IndirectLen, 1, 2)? {
                [hi, lo] => Ok(IndirectValue::U16((*hi as u16) * 256 + *lo as u16)),
                _ => unreachable!(),
            },"""),
  (R, """                let mut data = [0u8; 4];
                data.copy_from_slice(self.peek_at(CborDataContext::IndirectLen, 1, 4)?);
                Ok(IndirectValue::U32(u32::from_be_bytes(data)))""", """                let data = self.peek_at(CborDataContext::IndirectLen, 1, 4)?;
                Ok(IndirectValue::U32(u32::from_be_bytes(data.try_into().expect("4 bytes"))))"""),
  (R, """                let mut data = [0u8; 8];
                data.copy_from_slice(self.peek_at(CborDataContext::IndirectLen, 1, 8)?);
                Ok(IndirectValue::U64(u64::from_be_bytes(data)))""", """                let data = self.peek_at(CborDataContext::IndirectLen, 1, 8)?;
                let mut v = 0u64;
                for (i, b) in data.iter().rev().enumerate() {
                    v |= u64::from(*b) << (8 * i);
                }
                Ok(IndirectValue::U64(v))""")])
X("writer-buffer", "C05 C06 C22 C01", [(W, """        match v {
            HeaderValue::Imm(_) => (),
            HeaderValue::U8(v) => self.append_byte(v),
            HeaderValue::U16(v) => self.append_slice(&v.to_be_bytes()),
            HeaderValue::U32(v) => self.append_slice(&v.to_be_bytes()),
            HeaderValue::U64(v) => self.append_slice(&v.to_be_bytes()),
        };
    }

    fn write_value_stream""", """        let width = match v {
            HeaderValue::Imm(_) => 0,
            HeaderValue::U8(_) => 1,
            HeaderValue::U16(_) => 2,
            HeaderValue::U32(_) => 4,
            HeaderValue::U64(_) => 8,
        };
        let bytes = v.to_u64().to_be_bytes();
        self.data.reserve(width);
        for b in bytes.iter().skip(8 - width) {
            self.append_byte(*b);
        }
    }

    fn write_value_stream"""),
  (W, """        let lead = m.to_high_bits() | ContentStream::from(v.map(|c| c.to_lead_content())).to_byte();
        self.append_byte(lead);
        match v {
            None | Some(HeaderValue::Imm(_)) => (),
            Some(HeaderValue::U8(v)) => self.append_byte(v),
            Some(HeaderValue::U16(v)) => self.append_slice(&v.to_be_bytes()),
            Some(HeaderValue::U32(v)) => self.append_slice(&v.to_be_bytes()),
            Some(HeaderValue::U64(v)) => self.append_slice(&v.to_be_bytes()),
        };""", """        match v {
            Some(v) => self.write_value(m, v),
            None => {
                let lead = m.to_high_bits() | ContentStream::from(None).to_byte();
                self.append_byte(lead);
            }
        }"""),
  (W, """        for (k, v) in d.elements.iter() {
            self.append_slice(&k.0);
            self.append_slice(&v.0);
        }""", """        self.append_slice(
            &d.elements
                .iter()
                .flat_map(|(k, v)| k.0.iter().chain(v.0.iter()))
                .copied()
                .collect::<Vec<u8>>(),
        );""")])
X("writer-float", "C05 C10 C16", [(W, """            Float::FP16(v) => {
                self.append_byte(0xf9);
                self.append_slice(&v.to_be_bytes());
            }""", """            Float::FP16(v) => {
                let [hi, lo] = v.to_be_bytes();
                self.data.extend([0xf9, hi, lo]);
            }"""),
  (FL, """        let e = (fp16frac as u16).leading_zeros() - 6;
        let exp = (F32_EXP_BIAS - F16_EXP_BIAS - e) << F32_EXPONENT;
        let frac = (fp16frac << (14 + e)) & 0x007F_FFFF;
        sign | exp | frac""", """        let mut e = 0;
        let mut frac = fp16frac;
        while frac & 0x0400 == 0 {
            frac <<= 1;
            e += 1;
        }
        let exp = (F32_EXP_BIAS - F16_EXP_BIAS + 1 - e) << F32_EXPONENT;
        sign | exp | (frac & 0x03FF) << 13"""),
  (FL, "Float::FP16(fp) => f32::from_bits(ieee754_u16_to_u32(*fp)).into(),", "Float::FP16(_) => f64::from(self.to_f32()),")])
X("float-arith", "C10", [(FL, """        // Calculate how much to adjust the exponent by and adjust exponent
        let e = (fp16frac as u16).leading_zeros() - 6;
        let exp = (F32_EXP_BIAS - F16_EXP_BIAS - e) << F32_EXPONENT;
        let frac = (fp16frac << (14 + e)) & 0x007F_FFFF;
        sign | exp | frac""", """        // a subnormal is its fraction times 2^-24
        let value = fp16frac as f32 / 16777216.0;
        sign | value.to_bits()"""),
  (FL, "Float::FP64(fp) => f64::from_bits(*fp) as f32,", """Float::FP64(_) => {
                let wide = self.to_f64();
                if wide.is_nan() {
                    f32::NAN
                } else {
                    wide as f32
                }
            }""")])
X("strings", "C13 C05 C07 C16", [(SS, "Bytes::Chunks(chunks) => chunks.iter().fold(0, |acc, c| acc + c.1.len()),", "Bytes::Chunks(chunks) => chunks.iter().map(|c| c.as_slice().len()).sum(),"),
  (SS, """            Bytes::Chunks(chunks) => chunks.iter().fold(Vec::new(), |mut v, c| {
                v.extend_from_slice(c.1);
                v
            }),""", """            Bytes::Chunks(chunks) => {
                let parts: Vec<&[u8]> = chunks.iter().map(|c| c.1).collect();
                parts.concat()
            }"""),
  (SS, """            Text::Chunks(chunks) => chunks.iter().fold(String::new(), |mut v, c| {
                v.push_str(c.1);
                v
            }),""", """            Text::Chunks(_) => self.to_str_chunks().into_iter().collect(),"""),
  (SS, "Text::Imm(bd) => bd.1.to_string(),\n            Text::Chunks", "Text::Imm(bd) => String::from(bd.as_str()),\n            Text::Chunks"),
  (SS, """            Bytes::Chunks(chunks) => {
                BytesOwned::Chunks(chunks.iter().map(|bd| bd.owned()).collect())
            }""", """            Bytes::Chunks(chunks) => {
                let mut out = Vec::with_capacity(chunks.len());
                for i in 0..chunks.len() {
                    out.push(chunks[i].owned());
                }
                BytesOwned::Chunks(out)
            }"""),
  (D, """            let mut output = [0u8; N];
            // optimise to not do a to_vec() here
            output.copy_from_slice(&bytes.to_vec());
            Ok(output)""", """            let mut output = [0u8; N];
            for (o, b) in output.iter_mut().zip(bytes.to_vec()) {
                *o = b;
            }
            Ok(output)""")])
X("decode-range", "C07 C17 C18 C22", [(D, "        assert_range!(val <= 255);\n        Ok(val as u8)", """        u8::try_from(val).map_err(|_| {
            DecodeErrorKind::OutOfRange {
                min: u8::MIN as u64,
                max: u8::MAX as u64,
                got: val,
            }
            .context::<Self>()
        })"""),
  (D, "        assert_range!(val <= 65535);\n        Ok(val as u16)", """        if let Ok(small) = val.try_into() {
            Ok(small)
        } else {
            Err(DecodeErrorKind::OutOfRange { min: 0, max: 0xffff, got: val }.context::<Self>())
        }"""),
  (D, """    let mut out = Vec::with_capacity(a.len());
    for (i, mut inner_reader) in a.iter().enumerate() {
        let v = <T>::decode(&mut inner_reader)
            .map_err(|e| e.push_string(format!("{}", i)).push_str("Vec"))?;
        out.push(v)
    }
    Ok(out)""", """    a.iter()
        .enumerate()
        .map(|(i, mut inner_reader)| {
            inner_reader
                .decode::<T>()
                .map_err(|e| e.push_string(i.to_string()).push_str("Vec"))
        })
        .collect()"""),
  (P, """        let mut reader = self.read();
        let t = <T>::decode(&mut reader)?;
        reader
            .expect_finished()
            .map_err(DecodeErrorKind::ReaderError)
            .map_err(|e| e.context::<T>())?;
        Ok(t)
    }
}

impl AsRef""", """        let slice: &CborSlice = self.borrow();
        slice.decode()
    }
}

impl AsRef"""),
  (P, """        match <T>::decode(&mut r) {
            Ok(_) => (),
            Err(e) => return Err(e),
        };
        if !r.is_finished() {
            return Err(DecodeErrorKind::ReaderNotTerminated {
                remaining_bytes: r.remaining_bytes(),
            }
            .context::<Self>());
        }
        Ok(CborDataOf(PhantomData, self.0.clone()))""", """        let _ = <T>::decode(&mut r)?;
        match r.remaining_bytes() {
            0 => Ok(CborDataOf(PhantomData, self.0.clone())),
            remaining_bytes => Err(DecodeErrorKind::ReaderNotTerminated { remaining_bytes }.context::<Self>()),
        }""")])
X("tagged-helper", "C16", [(T, """        let tag = matches_tag!(reader, 2);
        let bytes = tag.read_data(|reader| reader.bytes())?;
        Ok(PositiveBignum(tag.tag_repr(), bytes.owned()))""", """        let (tag, bytes) = tagged_bytes(reader, 2)?;
        Ok(PositiveBignum(tag, bytes))"""), (T, """        let tag = matches_tag!(reader, 3);
        let bytes = tag.read_data(|reader| reader.bytes())?;
        Ok(NegativeBignum(tag.tag_repr(), bytes.owned()))""", """        tagged_bytes(reader, 3).map(|(tag, bytes)| NegativeBignum(tag, bytes))"""),
  (T, """impl StandardDateTime {""", """fn tagged_bytes<'a>(
    reader: &mut Reader<'a>,
    expected: u64,
) -> Result<(TagValue, BytesOwned), ReaderError> {
    let tag = reader.tag()?;
    let got = tag.value();
    if got == expected {
        let mut inner = tag.reader();
        let bytes = inner.bytes()?.owned();
        inner.expect_finished()?;
        Ok((tag.tag_repr(), bytes))
    } else {
        Err(ReaderError::WrongExpectedTag { expected, got })
    }
}

impl StandardDateTime {""")])
X("structure-iter", "C12 C22 C18", [(STR, """        let mut output = Vec::with_capacity(self.len());
        for element in self.elements.iter() {
            let mut reader = Reader::new(element.as_ref());
            let value = f(&mut reader)?;
            output.push(value)
        }
        Ok(output)
    }

    /// Turn a borrow""", """        self.elements
            .iter()
            .map(|element| f(&mut element.reader()))
            .collect()
    }

    /// Turn a borrow"""),
  (STR, "        self.elements.iter().map(|(_k, v)| (v.reader()))", "        (0..self.elements.len()).map(move |i| self.elements[i].1.reader())"),
  (STR, """            elements: self
                .elements
                .iter()
                .map(|(k, v)| (k.borrow(), v.borrow()))
                .collect::<Vec<(&'a CborSlice, &'a CborSlice)>>(),""", """            elements: {
                let mut out: Vec<(&'a CborSlice, &'a CborSlice)> = Vec::new();
                for pair in &self.elements {
                    out.push((pair.0.borrow(), pair.1.borrow()));
                }
                out
            },""")])
X("derive-struct", "C19 C20", [(PR, """                let #field_name = array[#field_index].decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?;
                                }
                            }""", """                let #field_name = {
                                        let mut r = array[#field_index].reader();
                                        let v = r.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?;
                                        r.expect_finished().map_err(::cbored::DecodeErrorKind::ReaderError).map_err(|e| e.context::<Self>())?;
                                        v
                                    };
                                }
                            }"""),
  (PR, """                                if #field_name.is_some() {
                                    return Err(cbored::DecodeErrorKind::Custom(format!("duplicated key {}", key)).context::<Self>());
                                }
                                #field_name = Some(v.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?);""", """                                match #field_name {
                                    None => {
                                        #field_name = Some(v.decode().map_err(|e| e.push_str(#field_name_str).push::<Self>())?);
                                    }
                                    Some(_) => {
                                        return Err(cbored::DecodeErrorKind::Custom(format!("key {} seen twice", key)).context::<Self>());
                                    }
                                }"""),
  (PR, "                    let nb_values : u64 = #fixed #( #len_for_optionals )* ;", "                    let mut nb_values : u64 = #fixed;\n                    nb_values += 0 #( #len_for_optionals )* ;")])
X("derive-enum", "C21", [(SU, """    let mut index = attr.variant_starts_at;

    let mut indices = Vec::new();
    for _ in 0..elements.len() {
        while attr.variant_skip.contains(&index) {
            index += 1;
        }
        indices.push(index);
        index += 1;
    }
""", """    let indices = (attr.variant_starts_at..)
        .filter(|index| !attr.variant_skip.contains(index))
        .take(elements.len())
        .collect::<Vec<_>>();
"""), (SU, """                match array.len() {
                    0 => {
                        return Err(::cbored::DecodeErrorKind::Custom(format!("expecting at least 1 item in variant encoding of {}", #name_type)).context::<Self>());
                    }
                    _ => {}
                };""", """                if array.len() == 0 {
                    return Err(::cbored::DecodeErrorKind::UnexpectedLength { expected: 1, got: 0 }.context::<Self>());
                }""")])
