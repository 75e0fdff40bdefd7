WANT = 'equal'
E = []


def e(name, scope, *edits):
    E.append((name, scope, edits))


FIN = r'^Pdf::finish'
e('header helper', r'^Pdf::(new|with)', ('lib.rs', '''        chunk.buf.extend(b"%PDF-1.7\\n%\\x80\\x80\\x80\\x80\\n\\n");
''', '''        write_header(&mut chunk.buf);
'''), ('lib.rs', 'fn finish_trailer(', '''fn write_header(buf: &mut Buf) {
    buf.extend(b"%PDF-1.7\\n");
    buf.push(b'%');
    buf.extend(&[0x80; 4]);
    buf.extend(b"\\n\\n");
}

fn finish_trailer('''))
e('version via match', r'^Pdf::set_version', ('lib.rs', '''        if major < 10 {
            self.chunk.buf.inner[5] = b'0' + major;
        }
        if minor < 10 {
            self.chunk.buf.inner[7] = b'0' + minor;
        }''', '''        if minor <= 9 {
            self.chunk.buf.inner[7] = minor + b'0';
        }
        match major {
            0..=9 => self.chunk.buf.inner[5] = major + 48,
            _ => {}
        }'''))
e('version loop', r'^Pdf::set_version', ('lib.rs', '''        if major < 10 {
            self.chunk.buf.inner[5] = b'0' + major;
        }
        if minor < 10 {
            self.chunk.buf.inner[7] = b'0' + minor;
        }''', '''        for (pos, digit) in [(5, major), (7, minor)] {
            if digit < 10 {
                self.chunk.buf.inner[pos] = b'0' + digit;
            }
        }'''))
e('marker loop', r'^Pdf::set_binary', ('lib.rs', '''        self.chunk.buf.inner[10..14].copy_from_slice(marker);''', '''        for (i, &b) in marker.iter().enumerate() {
            self.chunk.buf.inner[10 + i] = b;
        }'''))
e('free list extracted', FIN, ('lib.rs', '''            let mut next = free_id + 1;
            if next == object_id.get() {
                // Find next free id.
                for (used_id, _) in &offsets[i..] {
                    if next < used_id.get() {
                        break;
                    } else {
                        next = used_id.get() + 1;
                    }
                }
            }
''', '''            let next = next_free_id(free_id, object_id.get(), &offsets[i..]);
'''), ('lib.rs', 'fn write_offsets(', '''fn next_free_id(free_id: i32, object_id: i32, rest: &[(Ref, usize)]) -> i32 {
    let mut next = free_id + 1;
    if next == object_id {
        for (used_id, _) in rest {
            if next < used_id.get() {
                break;
            }
            next = used_id.get() + 1;
        }
    }
    next
}

fn write_offsets('''))
e('free list early return', FIN, ('lib.rs', '''            let mut next = free_id + 1;
            if next == object_id.get() {
                // Find next free id.
                for (used_id, _) in &offsets[i..] {
                    if next < used_id.get() {
                        break;
                    } else {
                        next = used_id.get() + 1;
                    }
                }
            }
''', '''            let next = next_free_id(free_id, object_id.get(), &offsets[i..]);
'''), ('lib.rs', 'fn write_offsets(', '''fn next_free_id(free_id: i32, object_id: i32, rest: &[(Ref, usize)]) -> i32 {
    let mut next = free_id + 1;
    if next != object_id {
        return next;
    }
    for &(used_id, _) in rest.iter() {
        let used = used_id.get();
        if used > next {
            return next;
        }
        next = used + 1;
    }
    next
}

fn write_offsets('''))
e('while loop over free ids', FIN, ('lib.rs', '''        let start = written;
        for free_id in start..object_id.get() {''', '''        while written < object_id.get() {
            let free_id = written;'''))
e('gen before next', FIN, ('lib.rs', '''            let mut next = free_id + 1;
            if next''', '''            let gen = if free_id == 0 { 65535 } else { 0 };
            let mut next = free_id + 1;
            if next'''), ('lib.rs', '''            let gen = if free_id == 0 { 65535 } else { 0 };
            writer.''', '''            writer.'''))
e('gen via match', FIN, ('lib.rs', '''let gen = if free_id == 0 { 65535 } else { 0 };''', '''let gen = match free_id {
                0 => u16::MAX,
                _ => 0,
            };'''))
e('index loop over offsets', FIN, ('lib.rs', '''    for (i, (object_id, offset)) in offsets.iter().enumerate() {
''', '''    for i in 0..offsets.len() {
        let (object_id, offset) = &offsets[i];
'''))
e('sort unstable', FIN, ('lib.rs', 'offsets.sort();', 'offsets.sort_unstable();'))
e('assert for duplicate', FIN, ('lib.rs', '''        if written > object_id.get() {
            panic!("duplicate indirect reference id: {}", object_id.get());
        }
''', '''        assert!(
            written <= object_id.get(),
            "duplicate indirect reference id: {}",
            object_id.get()
        );
'''))
e('xref len via match', FIN, ('lib.rs', '''let xref_len = 1 + offsets.last().map_or(0, |p| p.0.get());''', '''let xref_len = match offsets.last() {
        Some((id, _)) => id.get() + 1,
        None => 1,
    };'''))
e('xref len via if let', FIN, ('lib.rs', '''let xref_len = 1 + offsets.last().map_or(0, |p| p.0.get());''', '''let mut max_id = 0;
    if let Some(last) = offsets.last() {
        max_id = last.0.get();
    }
    let xref_len = max_id + 1;'''))
e('trailer helper', FIN, ('lib.rs', '''        if let Some(file_id) = &self.file_id {
            let mut ids = dict.insert(Name(b"ID")).array();
            ids.item(Str(&file_id.0));
            ids.item(Str(&file_id.1));
        }''', '''        if let Some((first, second)) = self.file_id.as_ref() {
            dict.insert(Name(b"ID")).array().items([Str(first), Str(second)]);
        }'''))
e('trailer closures', FIN, ('lib.rs', '''        if let Some(catalog_id) = self.catalog_id {
            dict.pair(Name(b"Root"), catalog_id);
        }

        if let Some(info_id) = self.info_id {
            dict.pair(Name(b"Info"), info_id);
        }''', '''        for (key, id) in [(&b"Root"[..], self.catalog_id), (b"Info", self.info_id)] {
            if let Some(id) = id {
                dict.pair(Name(key), id);
            }
        }'''))
e('xref stream entry loop', FIN, ('lib.rs', '''        self.buf.extend(
            offset_bytes
                .iter()
                .skip(offset_bytes.len() - self.field_width as usize),
        );''', '''        let first = offset_bytes.len() - self.field_width as usize;
        self.buf.extend_from_slice(&offset_bytes[first..]);'''))
e('xref stream entry shifts', FIN, ('lib.rs', '''        let offset_bytes = (offset as u64).to_be_bytes();

        self.buf.push(entry_type);
        self.buf.extend(
            offset_bytes
                .iter()
                .skip(offset_bytes.len() - self.field_width as usize),
        );''', '''        self.buf.push(entry_type);
        let offset_bytes = (offset as u64).to_be_bytes();
        for &byte in offset_bytes.iter().skip(8 - self.field_width as usize) {
            self.buf.push(byte);
        }'''))
e('entry via parameter', FIN, ('lib.rs', '''        write!(self.buf.inner, "{offset:010} {gen_number:05} f\\r\\n").unwrap();''', '''        self.entry(offset, gen_number, 'f');'''),
  ('lib.rs', '''        write!(self.buf.inner, "{offset:010} {gen_number:05} n\\r\\n").unwrap();''', '''        self.entry(offset, gen_number, 'n');'''),
  ('lib.rs', '''    fn new(buf: &'a mut Buf) -> Self {
        Self { buf }
    }
''', '''    fn new(buf: &'a mut Buf) -> Self {
        Self { buf }
    }

    fn entry(&mut self, offset: usize, gen_number: u16, kind: char) {
        write!(self.buf.inner, "{offset:010} {gen_number:05} {kind}\\r\\n").unwrap();
    }
'''))
e('entry via byte parameter', FIN, ('lib.rs', '''        write!(self.buf.inner, "{offset:010} {gen_number:05} f\\r\\n").unwrap();''', '''        self.entry(offset, gen_number, b'f');'''),
  ('lib.rs', '''        write!(self.buf.inner, "{offset:010} {gen_number:05} n\\r\\n").unwrap();''', '''        self.entry(offset, gen_number, b'n');'''),
  ('lib.rs', '''    fn new(buf: &'a mut Buf) -> Self {
        Self { buf }
    }
''', '''    fn new(buf: &'a mut Buf) -> Self {
        Self { buf }
    }

    fn entry(&mut self, offset: usize, gen_number: u16, kind: u8) {
        write!(self.buf.inner, "{:010} {:05} ", offset, gen_number).unwrap();
        self.buf.push(kind);
        self.buf.extend(b"\\r\\n");
    }
'''))
e('width match', FIN, ('lib.rs', '''    (usize::BITS - offset.leading_zeros()).div_ceil(8)''', '''    let bits = usize::BITS - offset.leading_zeros();
    (bits + 7) / 8'''))
e('filter into_iter', FIN, ('lib.rs', '''                    let mut arr = stream.insert(Name(b"Filter")).array();

                    for filter in filters {
                        arr.item(filter.to_name());
                    }''', '''                    stream
                        .insert(Name(b"Filter"))
                        .array()
                        .items(filters.into_iter().map(|f| f.to_name()));'''))
e('filter flattened match', FIN, ('lib.rs', '''        if let Some(filter) = filter {
            match filter {
                XRefFilter::Single(filter) => {
                    stream.filter(filter);
                }
                XRefFilter::Multiple(filters) => {
                    let mut arr = stream.insert(Name(b"Filter")).array();

                    for filter in filters {
                        arr.item(filter.to_name());
                    }
                }
            }
        }''', '''        match &filter {
            None => {}
            Some(XRefFilter::Single(filter)) => {
                stream.filter(*filter);
            }
            Some(XRefFilter::Multiple(filters)) => {
                let mut arr = stream.insert(Name(b"Filter")).array();
                for filter in filters.iter() {
                    arr.item(filter.to_name());
                }
            }
        }'''))
e('max id loop', FIN, ('lib.rs', '''        let max_id = offsets.iter().map(|p| p.0.get()).max().unwrap_or(0);''', '''        let mut max_id = 0;
        for (id, _) in &offsets {
            if id.get() > max_id {
                max_id = id.get();
            }
        }'''))
e('startxref push_int', FIN, ('lib.rs', '''    write!(buf.inner, "{}", xref_offset).unwrap();''', '''    buf.inner.extend_from_slice(xref_offset.to_string().as_bytes());'''))
e('writer macro split', FIN, ('lib.rs', '''        let mut trailer = Obj::direct(&mut buf, 0, settings, false).dict();
        trailer_data.write_into_dict(&mut trailer, xref_len);
        trailer.finish();
''', '''        {
            let obj = Obj::direct(&mut buf, 0, settings, false);
            let mut trailer = obj.dict();
            trailer_data.write_into_dict(&mut trailer, xref_len);
        }
'''))

# ---------------------------------------------------------------- buf.rs, object.rs
OBJ = r'^(<?(buf|object|chunk)::|<?(content)::(Content|Operation)::(new|op|finish|obj|operand)|Dict|<(i32|f32|bool))'
e('push int via helper', OBJ, ('buf.rs', '''        self.limits.register_int(value);
        self.extend(itoa::Buffer::new().format(value).as_bytes());
    }''', '''        self.limits.register_int(value);
        self.push_digits(value);
    }

    fn push_digits(&mut self, value: i32) {
        let mut digits = itoa::Buffer::new();
        let text = digits.format(value);
        self.inner.extend_from_slice(text.as_bytes());
    }'''))
e('push float early return', OBJ, ('buf.rs', '''        if value as i32 as f32 == value {
            self.push_int(value as i32);
        } else {
            self.push_decimal(value);
        }''', '''        let whole = value as i32;
        if value != whole as f32 {
            return self.push_decimal(value);
        }
        self.push_int(whole);'''))
e('push decimal split', OBJ, ('buf.rs', '''        if value == 0.0 || (value.abs() > 1e-6 && value.abs() < 1e12) {''', '''        let size = value.abs();
        let ordinary = size == 0.0 || (1e-6 < size && size < 1e12);
        if ordinary {'''))
e('hex table', OBJ, ('buf.rs', '''        fn hex(b: u8) -> u8 {
            if b < 10 {
                b'0' + b
            } else {
                b'A' + (b - 10)
            }
        }

        self.push(hex(value >> 4));
        self.push(hex(value & 0xF));''', '''        const DIGITS: &[u8; 16] = b"0123456789ABCDEF";
        self.push(DIGITS[(value >> 4) as usize]);
        self.push(DIGITS[(value & 0xF) as usize]);'''))
e('hex match', OBJ, ('buf.rs', '''            if b < 10 {
                b'0' + b
            } else {
                b'A' + (b - 10)
            }''', '''            match b {
                0..=9 => b'0' + b,
                _ => b'A' - 10 + b,
            }'''))
e('hex loop', OBJ, ('buf.rs', '''        self.push(hex(value >> 4));
        self.push(hex(value & 0xF));''', '''        for nibble in [value >> 4, value & 0xF] {
            self.push(hex(nibble));
        }'''))
e('hex u16 bytes', OBJ, ('buf.rs', '''        self.push_hex((value >> 8) as u8);
        self.push_hex(value as u8);''', '''        let [high, low] = value.to_be_bytes();
        self.push_hex(high);
        self.push_hex(low);'''))
e('hex u16 bytes loop', OBJ, ('buf.rs', '''        self.push_hex((value >> 8) as u8);
        self.push_hex(value as u8);''', '''        for byte in value.to_be_bytes() {
            self.push_hex(byte);
        }'''))
e('octal loop', OBJ, ('buf.rs', '''        self.push(octal(value >> 6));
        self.push(octal((value >> 3) & 7));
        self.push(octal(value & 7));''', '''        for shift in [6, 3, 0] {
            self.push(octal((value >> shift) & 7));
        }'''))
e('merge by max', OBJ, ('buf.rs', '''        self.register_int(other.int);
        self.register_real(other.real);
        self.register_name_len(other.name_len);
        self.register_str_len(other.str_len);
        self.register_array_len(other.array_len);
        self.register_dict_entries(other.dict_entries);''', '''        self.register_dict_entries(other.dict_entries);
        self.register_array_len(other.array_len);
        self.register_str_len(other.str_len);
        self.register_name_len(other.name_len);
        self.register_real(other.real);
        self.register_int(other.int);'''))
e('register via if', OBJ, ('buf.rs', '''        self.name_len = self.name_len.max(len);''', '''        if len > self.name_len {
            self.name_len = len;
        }'''))
e('register via ord max', OBJ, ('buf.rs', '''        self.str_len = self.str_len.max(len);''', '''        self.str_len = std::cmp::max(len, self.str_len);'''))
e('register int abs', OBJ, ('buf.rs', '''        self.int = self.int.max(val.saturating_abs());''', '''        let size = val.saturating_abs();
        self.int = if size >= self.int { size } else { self.int };'''))
e('extend buf order', OBJ, ('buf.rs', '''        self.limits.merge(&other.limits);
        self.inner.extend(&other.inner);''', '''        self.inner.extend_from_slice(&other.inner);
        self.limits.merge(&other.limits);'''))
e('is balanced find', OBJ, ('object.rs', '''        let mut depth = 0;
        for &byte in self.0 {
            match byte {
                b'(' => depth += 1,
                b')' if depth > 0 => depth -= 1,
                b')' => return false,
                _ => {}
            }
        }
        depth == 0''', '''        let mut open = 0;
        for byte in self.0.iter().copied() {
            if byte == b'(' {
                open += 1;
            } else if byte == b')' {
                if open == 0 {
                    return false;
                }
                open -= 1;
            }
        }
        open == 0'''))
e('str split helpers', OBJ, ('object.rs', '''        if self.0.iter().all(|b| b.is_ascii()) {
            buf.reserve(self.0.len());
            buf.inner.push(b'(');''', '''        let literal = self.0.is_ascii();
        if literal {
            buf.reserve(self.0.len());
            buf.push(b'(');'''))
e('str hex helper', OBJ, ('object.rs', '''            buf.reserve(2 + 2 * self.0.len());
            buf.push(b'<');

            for &byte in self.0 {
                buf.push_hex(byte);
            }

            buf.push(b'>');
        }
    }
}
''', '''            write_hex_string(self.0, buf);
        }
    }
}

fn write_hex_string(bytes: &[u8], buf: &mut Buf) {
    buf.reserve(2 + 2 * bytes.len());
    buf.push(b'<');
    bytes.iter().for_each(|&byte| buf.push_hex(byte));
    buf.push(b'>');
}
'''))
e('str escape table', OBJ, ('object.rs', '''                    b'\\\\' => buf.extend(br"\\\\"),
                    b' '..=b'~' => buf.push(byte),
                    b'\\n' => buf.extend(br"\\n"),
                    b'\\r' => buf.extend(br"\\r"),
                    b'\\t' => buf.extend(br"\\t"),
                    b'\\x08' => buf.extend(br"\\b"),
                    b'\\x0c' => buf.extend(br"\\f"),
                    _ => {
                        buf.push(b'\\\\');
                        buf.push_octal(byte);
                    }''', '''                    b'\\\\' => buf.extend(br"\\\\"),
                    b' '..=b'~' => buf.push(byte),
                    _ => {
                        buf.push(b'\\\\');
                        let letter = match byte {
                            b'\\n' => b'n',
                            b'\\r' => b'r',
                            b'\\t' => b't',
                            8 => b'b',
                            12 => b'f',
                            _ => 0,
                        };
                        if letter != 0 {
                            buf.push(letter);
                        } else {
                            buf.push_octal(byte);
                        }
                    }'''))
e('str balanced up front', OBJ, ('object.rs', '''                        if !*balanced
                            .get_or_insert_with(|| byte != b')' && self.is_balanced())
                        {
                            buf.push(b'\\\\');
                        }''', '''                        let keep = match balanced {
                            Some(x) => x,
                            None => {
                                let x = byte != b')' && self.is_balanced();
                                balanced = Some(x);
                                x
                            }
                        };
                        if !keep {
                            buf.push(b'\\\\');
                        }'''))
e('text all via iter', OBJ, ('object.rs', '''        if self.0.bytes().all(|b| matches!(b, 32..=126)) {
            Str(self.0.as_bytes()).write(buf);
        } else {
            buf.reserve(6 + 4 * self.0.len());
            write_utf16be_text_str_header(buf);
            for value in self.0.encode_utf16() {
                buf.push_hex_u16(value);
            }
            write_utf16be_text_str_footer(buf);
        }''', '''        let bytes = self.0.as_bytes();
        if !bytes.iter().all(|b| (b' '..=b'~').contains(b)) {
            buf.reserve(6 + 4 * self.0.len());
            write_utf16be_text_str_header(buf);
            write_utf16(self.0, buf);
            write_utf16be_text_str_footer(buf);
            return;
        }
        Str(bytes).write(buf);'''), ('object.rs', 'fn write_utf16be_text_str_header', '''fn write_utf16(text: &str, buf: &mut Buf) {
    for unit in text.encode_utf16() {
        buf.push_hex_u16(unit);
    }
}

fn write_utf16be_text_str_header'''))
e('text any instead of all', OBJ, ('object.rs', 'if self.0.bytes().all(|b| matches!(b, 32..=126)) {', 'if !self.0.bytes().any(|b| b < 32 || b > 126) {'))
e('lang len fold', OBJ, ('object.rs', '''        let mut len = 0;
        let mut buf_len = 6;

        for (lang, text) in self.0 {''', '''        let mut buf_len = 6;
        let mut len = 0;

        for &(lang, text) in self.0.iter() {'''))
e('lang code array', OBJ, ('object.rs', '''    buf.push_hex_u16(u16::from(lang.lang[0]));
    buf.push_hex_u16(u16::from(lang.lang[1]));
    if let Some(region) = lang.region {
        buf.push_hex_u16(u16::from(region[0]));
        buf.push_hex_u16(u16::from(region[1]));
    }''', '''    let mut code = |pair: [u8; 2]| {
        for byte in pair {
            buf.push_hex_u16(byte as u16);
        }
    };
    code(lang.lang);
    if let Some(region) = lang.region {
        code(region);
    }'''))
e('name escape inverted', OBJ, ('object.rs', '''            if byte != b'#' && matches!(byte, b'!'..=b'~') && is_regular_character(byte) {
                buf.push(byte);
            } else {
                buf.push(b'#');
                buf.push_hex(byte);
            }''', '''            let escape = byte == b'#' || !byte.is_ascii_graphic() || !is_regular_character(byte);
            if escape {
                buf.push(b'#');
                buf.push_hex(byte);
                continue;
            }
            buf.push(byte);'''))
e('regular via delimiter', OBJ, ('object.rs', '''    !matches!(
        byte,
        b'\\0'
            | b'\\t'
            | b'\\n'
            | b'\\x0C'
            | b'\\r'
            | b' '
            | b'('
            | b')'
            | b'<'
            | b'>'
            | b'['
            | b']'
            | b'{'
            | b'}'
            | b'/'
            | b'%'
    )''', '''    let white = matches!(byte, 0 | 9 | 10 | 12 | 13 | 32);
    let delimiter = is_delimiter_character(byte) || byte == b'{' || byte == b'}';
    !(white || delimiter)'''))
e('delimiter by contains', OBJ, ('object.rs', '''    matches!(byte, b'(' | b')' | b'<' | b'>' | b'[' | b']' | b'/' | b'%')
''', '''    b"()<>[]/%".contains(&byte)
'''))
e('rect loop', OBJ, ('object.rs', '''        buf.push(b'[');
        buf.push_val(self.x1);
        buf.push(b' ');
        buf.push_val(self.y1);
        buf.push(b' ');
        buf.push_val(self.x2);
        buf.push(b' ');
        buf.push_val(self.y2);
        buf.push(b']');

        buf.limits.register_array_len(4);''', '''        buf.limits.register_array_len(4);
        let mut open = b'[';
        for value in [self.x1, self.y1, self.x2, self.y2] {
            buf.push(open);
            buf.push_val(value);
            open = b' ';
        }
        buf.push(b']');'''))
e('date nested ifs', OBJ, ('object.rs', '''        (|| {
            write!(buf.inner, "{:04}", self.year).unwrap();
            write!(buf.inner, "{:02}", self.month?).unwrap();
            write!(buf.inner, "{:02}", self.day?).unwrap();
            write!(buf.inner, "{:02}", self.hour?).unwrap();
            write!(buf.inner, "{:02}", self.minute?).unwrap();
            write!(buf.inner, "{:02}", self.second?).unwrap();
            let utc_offset_hour = self.utc_offset_hour?;
            if utc_offset_hour == 0 && self.utc_offset_minute == 0 {
                buf.push(b'Z');
            } else {
                write!(
                    buf.inner,
                    "{:+03}'{:02}",
                    utc_offset_hour, self.utc_offset_minute
                )
                .unwrap();
            }
            Some(())
        })();
''', '''        self.write_fields(buf);
'''), ('object.rs', 'impl Sealed for Date {', '''impl Date {
    fn write_fields(&self, buf: &mut Buf) -> Option<()> {
        write!(buf.inner, "{:04}", self.year).unwrap();
        write!(buf.inner, "{:02}", self.month?).unwrap();
        write!(buf.inner, "{:02}", self.day?).unwrap();
        write!(buf.inner, "{:02}", self.hour?).unwrap();
        write!(buf.inner, "{:02}", self.minute?).unwrap();
        write!(buf.inner, "{:02}", self.second?).unwrap();
        let hour = self.utc_offset_hour?;
        let minute = self.utc_offset_minute;
        match (hour, minute) {
            (0, 0) => buf.push(b'Z'),
            _ => write!(buf.inner, "{hour:+03}'{minute:02}").unwrap(),
        }
        Some(())
    }
}

impl Sealed for Date {'''))
e('date field loop', OBJ, ('object.rs', '''            write!(buf.inner, "{:02}", self.month?).unwrap();
            write!(buf.inner, "{:02}", self.day?).unwrap();
            write!(buf.inner, "{:02}", self.hour?).unwrap();
            write!(buf.inner, "{:02}", self.minute?).unwrap();
            write!(buf.inner, "{:02}", self.second?).unwrap();
''', '''            for field in [self.month, self.day, self.hour, self.minute, self.second] {
                write!(buf.inner, "{:02}", field?).unwrap();
            }
'''))
e('date clamp split', OBJ, ('object.rs', '''        self.month = Some(month.clamp(1, 12));''', '''        let month = month.max(1).min(12);
        self.month = Some(month);'''))
e('date clamp match', OBJ, ('object.rs', '''        self.utc_offset_minute = minute.min(59);''', '''        self.utc_offset_minute = if minute > 59 { 59 } else { minute };'''))
e('obj end helper', OBJ, ('object.rs', '''        value.write(self.buf);

        if self.indirect {
            self.buf.extend(b"\\nendobj\\n");

            if self.settings.pretty {
                self.buf.extend(b"\\n");
            }
        }
    }''', '''        value.write(self.buf);
        if self.indirect {
            end_indirect(self.buf, self.settings);
        }
    }'''), ('object.rs', '''        self.buf.push(b']');
        if self.indirect {
            self.buf.extend(b"\\nendobj\\n");

            if self.settings.pretty {
                self.buf.extend(b"\\n");
            }
        }
''', '''        self.buf.push(b']');
        if self.indirect {
            end_indirect(self.buf, self.settings);
        }
'''), ('object.rs', '''impl<'a> Obj<'a> {
    /// Start a new direct object.''', '''fn end_indirect(buf: &mut Buf, settings: Settings) {
    buf.extend(b"\\nendobj\\n");
    if settings.pretty {
        buf.push(b'\\n');
    }
}

impl<'a> Obj<'a> {
    /// Start a new direct object.'''))
e('primitive padding nested', OBJ, ('object.rs', '''        let ends_with_delimiter = self
            .buf
            .last()
            .is_some_and(|b| *b != b'/' && is_delimiter_character(*b));

        if self.needs_padding && !T::STARTS_WITH_DELIMITER && !ends_with_delimiter {
            self.buf.extend(b" ");
        }
''', '''        if self.needs_padding && !T::STARTS_WITH_DELIMITER {
            let separated = match self.buf.last() {
                Some(b'/') | None => false,
                Some(&byte) => is_delimiter_character(byte),
            };
            if !separated {
                self.buf.push(b' ');
            }
        }
'''))
e('array push flat', OBJ, ('object.rs', '''        let needs_padding = if self.len != 0 {
            if self.settings.pretty {
                self.buf.push(b' ');
                false
            } else {
                true
            }
        } else {
            false
        };
''', '''        let later = self.len != 0;
        if later && self.settings.pretty {
            self.buf.push(b' ');
        }
        let needs_padding = later && !self.settings.pretty;
'''))
e('array items for each', OBJ, ('object.rs', '''        for value in values {
            self.item(value);
        }
        self''', '''        values.into_iter().for_each(|value| {
            self.item(value);
        });
        self'''))
e('array items while let', OBJ, ('object.rs', '''        for value in values {
            self.item(value);
        }
        self''', '''        let mut values = values.into_iter();
        while let Some(value) = values.next() {
            self.push().primitive(value);
        }
        self'''))
e('dict insert indent helper', OBJ, ('object.rs', '''        if self.settings.pretty {
            self.buf.push(b'\\n');

            for _ in 0..self.indent {
                self.buf.push(b' ');
            }
        }

        self.buf.push_val(key);
''', '''        if self.settings.pretty {
            self.line_break();
        }

        self.buf.push_val(key);
'''), ('object.rs', '''impl<'a> Dict<'a> {
''', '''impl<'a> Dict<'a> {
    fn line_break(&mut self) {
        self.buf.push(b'\\n');
        for _ in 0..self.indent {
            self.buf.push(b' ');
        }
    }

'''))
e('dict insert indent extend', OBJ, ('object.rs', '''            for _ in 0..self.indent {
                self.buf.push(b' ');
            }
        }

        self.buf.push_val(key);''', '''            self.buf.extend(std::iter::repeat(b' ').take(self.indent as usize));
        }

        self.buf.push_val(key);'''))
e('dict insert indent while', OBJ, ('object.rs', '''            for _ in 0..self.indent {
                self.buf.push(b' ');
            }
        }

        self.buf.push_val(key);''', '''            let mut column = 0;
            while column < self.indent {
                self.buf.push(b' ');
                column += 1;
            }
        }

        self.buf.push_val(key);'''))
e('dict insert count last', OBJ, ('object.rs', '''        let needs_padding = if self.settings.pretty {
            self.buf.push(b' ');
            false
        } else {
            true
        };
''', '''        let pretty = self.settings.pretty;
        if pretty {
            self.buf.push(b' ');
        }
        let needs_padding = !pretty;
'''))
e('pairs for each', OBJ, ('object.rs', '''        for (key, value) in pairs {
            self.pair(key, value);
        }
        self''', '''        for pair in pairs {
            let (key, value) = pair;
            self.insert(key).primitive(value);
        }
        self'''))
e('stream start match', OBJ, ('object.rs', '''        dict.pair(
            Name(b"Length"),
            i32::try_from(data.len()).unwrap_or_else(|_| {
                panic!("data length (is `{}`) must be <= i32::MAX", data.len());
            }),
        );
''', '''        let len = match i32::try_from(data.len()) {
            Ok(len) => len,
            Err(_) => panic!("data length (is `{}`) must be <= i32::MAX", data.len()),
        };
        dict.pair(Name(b"Length"), len);
'''))
e('stream drop joined', OBJ, ('object.rs', '''        self.dict.buf.extend(b">>");
        self.dict.buf.extend(b"\\nstream\\n");
        self.dict.buf.extend(self.data.as_ref());
        self.dict.buf.extend(b"\\nendstream");
        self.dict.buf.extend(b"\\nendobj\\n");
''', '''        let buf = &mut *self.dict.buf;
        buf.extend(b">>\\nstream\\n");
        buf.inner.extend_from_slice(self.data);
        buf.extend(b"\\nendstream\\nendobj\\n");
'''))
# ---------------------------------------------------------------- chunk.rs, renumber.rs
CH = r'^<?(chunk|renumber)::'
e('extend loop', CH, ('chunk.rs', '''        self.buf.extend_buf(&other.buf);
        self.offsets
            .extend(other.offsets.iter().map(|&(id, offset)| (id, base + offset)));''', '''        for &(id, offset) in &other.offsets {
            self.offsets.push((id, base + offset));
        }
        self.buf.extend_buf(&other.buf);'''))
e('extend map swapped', CH, ('chunk.rs', '''        self.offsets
            .extend(other.offsets.iter().map(|&(id, offset)| (id, base + offset)));''', '''        let moved = other.offsets.iter().map(|entry| (entry.0, offset_from(base, entry.1)));
        self.offsets.extend(moved);'''), ('chunk.rs', "/// Indirect objects and streams.", '''fn offset_from(base: usize, offset: usize) -> usize {
    offset + base
}

/// Indirect objects and streams.'''))
e('patch by if chain', CH, ('renumber.rs', '''                    buf.extend(&slice[written..head]);
                    buf.push_int(new.get());
                    buf.push(b' ');
                    buf.push_int(gen);
                    buf.push(b' ');
                    buf.push(b'R');
                    written = seen + 1;''', '''                    buf.extend(&slice[written..head]);
                    write_ref(buf, new, gen);
                    written = seen + 1;'''), ('renumber.rs', '/// Validate a match for an indirect reference.', '''fn write_ref(buf: &mut Buf, id: Ref, gen: i32) {
    buf.push_int(id.get());
    buf.push(b' ');
    buf.push_int(gen);
    buf.extend(b" R");
}

/// Validate a match for an indirect reference.'''))
e('comment skip helper', CH, ('renumber.rs', '''                while seen < slice.len() {
                    match slice[seen] {
                        b'\\n' | b'\\r' => break,
                        _ => {}
                    }
                    seen += 1;
                }''', '''                while seen < slice.len() && slice[seen] != b'\\n' && slice[seen] != b'\\r' {
                    seen += 1;
                }'''))
e('string skip helper', CH, ('renumber.rs', '''                let mut depth = 0;
                while seen < slice.len() {
                    match slice[seen] {
                        b'(' => depth += 1,
                        b')' if depth == 1 => break,
                        b')' => depth -= 1,
                        b'\\\\' => seen += 1,
                        _ => {}
                    }
                    seen += 1;
                }''', '''                seen = skip_string(slice, seen);'''), ('renumber.rs', '/// Validate a match for an indirect reference.', '''fn skip_string(slice: &[u8], start: usize) -> usize {
    let mut depth = 0;
    let mut at = start;
    while at < slice.len() {
        match slice[at] {
            b'(' => depth += 1,
            b')' if depth == 1 => break,
            b')' => depth -= 1,
            b'\\\\' => at += 1,
            _ => {}
        }
        at += 1;
    }
    at
}

/// Validate a match for an indirect reference.'''))
e('validate ref if', CH, ('renumber.rs', '''    (id > 0).then(|| (prefix.len(), Ref::new(id), gen))''', '''    if id <= 0 {
        return None;
    }
    Some((prefix.len(), Ref::new(id), gen))'''))
e('ws via set', CH, ('renumber.rs', '''    matches!(byte, b'\\0' | b'\\t' | b'\\n' | b'\\x0c' | b'\\r' | b' ')''', '''    match byte {
        0 | 9 | 10 | 12 | 13 | 32 => true,
        _ => false,
    }'''))
e('eat suffix direct', CH, ('renumber.rs', '''    let (head, tail) = slice.split_at(i);
    *slice = head;
    tail''', '''    let whole = *slice;
    *slice = &whole[..i];
    &whole[i..]'''))
e('eat suffix rposition', CH, ('renumber.rs', '''    let mut i = slice.len();
    while i > 0 && predicate(slice[i - 1]) {
        i -= 1;
    }
    let''', '''    let i = slice.iter().rposition(|&byte| !predicate(byte)).map_or(0, |i| i + 1);
    let'''))
e('renumber match end', CH, ('renumber.rs', '''        let end = iter.peek().map_or(source.buf.len(), |&(_, offset)| offset);''', '''        let end = match iter.peek() {
            Some(&(_, next)) => next,
            None => source.buf.len(),
        };'''))
e('renumber index loop', CH, ('renumber.rs', '''    let mut iter = source.offsets.iter().copied().peekable();
    while let Some((id, offset)) = iter.next() {
        let new = mapping(id);
        let end = iter.peek().map_or(source.buf.len(), |&(_, offset)| offset);''', '''    for (i, &(id, offset)) in source.offsets.iter().enumerate() {
        let new = mapping(id);
        let end = source.offsets.get(i + 1).map_or(source.buf.len(), |next| next.1);'''))
e('renumber skip match', CH, ('renumber.rs', '''        let Some((gen, slice)) = extract_object(slice) else { continue };
        target.offsets''', '''        let (gen, slice) = match extract_object(slice) {
            Some(found) => found,
            None => continue,
        };
        target.offsets'''))
e('renumber limits last', CH, ('renumber.rs', '''    target.buf.limits.merge(source.limits());

''', '''    target.merge_limits(source.limits());

'''))
# ---------------------------------------------------------------- content, font, functions
CT = r'^<?content::'
e('operation drop nested', CT, ('content.rs', '''        if (self.settings.pretty
            || self
                .buf
                .last()
                .is_some_and(|b| *b == b'/' || !is_delimiter_character(*b)))
            && !self.buf.is_empty()
        {
            self.buf.push(pad_byte);
        }
''', '''        if let Some(&byte) = self.buf.last() {
            let merges = byte == b'/' || !is_delimiter_character(byte);
            if self.settings.pretty || merges {
                self.buf.push(pad_byte);
            }
        }
'''))
e('operation obj nested', CT, ('content.rs', '''        let needs_padding = if self.settings.pretty {
            if !self.buf.is_empty() {
                self.buf.push(pad_byte);
            }

            false
        } else {
            true
        };
''', '''        let pretty = self.settings.pretty;
        if pretty && !self.buf.is_empty() {
            self.buf.push(pad_byte);
        }
        let needs_padding = !pretty;
'''))
e('finish ends with', CT, ('content.rs', '''        if self.buf.last() == Some(&b'\\n') {
            self.buf.inner.pop();
        }''', '''        if self.buf.ends_with(b"\\n") {
            self.buf.inner.pop();
        }'''))
e('finish truncate', CT, ('content.rs', '''        if self.buf.last() == Some(&b'\\n') {
            self.buf.inner.pop();
        }''', '''        if let Some(b'\\n') = self.buf.last() {
            let len = self.buf.len() - 1;
            self.buf.inner.truncate(len);
        }'''))
e('depth first', CT, ('content.rs', '''        self.op("q");
        self.q_depth = self.q_depth.saturating_add(1);
        self''', '''        self.q_depth = self.q_depth.saturating_add(1);
        self.op("q");
        self'''))
e('depth checked', CT, ('content.rs', '''self.q_depth = self.q_depth.saturating_sub(1);''', '''self.q_depth = self.q_depth.checked_sub(1).unwrap_or(0);'''))
e('dash explicit', CT, ('content.rs', '''        let mut op = self.op("d");
        op.obj().array().items(array);
        op.operand(phase);
        op.finish();
        self''', '''        {
            let mut op = self.op("d");
            {
                let mut lengths = op.obj().array();
                for length in array {
                    lengths.item(length);
                }
            }
            op.operand(phase);
        }
        self'''))
CM = r'^font::(UnicodeCmap|Cmap)'
e('cmap early return', CM, ('font.rs', '''        if self.count > 0 {
            self.buf.push_int(self.count);
            self.buf.extend(b" beginbfchar\\n");
            self.buf.extend(self.mappings.as_slice());
            self.buf.extend(b"endbfchar\\n");
        }

        self.count = 0;
        self.mappings.inner.clear();''', '''        if self.count == 0 {
            return;
        }

        self.buf.push_int(self.count);
        self.buf.extend(b" beginbfchar\\n");
        self.buf.extend(self.mappings.as_slice());
        self.buf.extend(b"endbfchar\\n");
        self.mappings.inner.clear();
        self.count = 0;'''))
e('cmap utf16 buffer', CM, ('font.rs', '''            for &mut part in c.encode_utf16(&mut [0; 2]) {
                self.mappings.push_hex_u16(part);
            }''', '''            let mut units = [0; 2];
            for part in c.encode_utf16(&mut units).iter() {
                self.mappings.push_hex_u16(*part);
            }'''))
e('cmap const', CM, ('font.rs', '''        if self.count >= 100 {''', '''        const MAX: i32 = 100;
        if self.count >= MAX {'''))
e('cmap start helper', CM, ('font.rs', '''        self.mappings.push(b'<');
        glyph.push(&mut self.mappings);
        self.mappings.extend(b"> <");
''', '''        let out = &mut self.mappings;
        out.push(b'<');
        glyph.push(out);
        out.extend(b"> <");
'''))
e('cmap static header table', CM, ('font.rs', '''        buf.extend(b"%!PS-Adobe-3.0 Resource-CMap\\n");
        buf.extend(b"%%DocumentNeededResources: procset CIDInit\\n");
        buf.extend(b"%%IncludeResource: procset CIDInit\\n");
''', '''        for line in [
            "%!PS-Adobe-3.0 Resource-CMap",
            "%%DocumentNeededResources: procset CIDInit",
            "%%IncludeResource: procset CIDInit",
        ] {
            buf.extend(line.as_bytes());
            buf.push(b'\\n');
        }
'''))
PS = r'^functions::'
e('ps write helper', PS, ('functions.rs', '''        for op in ops {
            op.write(buf);
            buf.push(b' ');
        }
        if ops.len() == 1 {
            buf.inner.pop();
        }''', '''        for op in ops.iter() {
            op.write(buf);
            buf.push(b' ');
        }
        if let [_] = ops {
            buf.inner.pop();
        }'''))
e('ps if first', PS, ('functions.rs', '''            Self::If(ops) => {
                Self::write_slice(ops, buf);
                buf.push(b' ');
                buf.extend(self.operator());
            }
            Self::IfElse(ops1, ops2) => {
                Self::write_slice(ops1, buf);
                buf.push(b' ');
                Self::write_slice(ops2, buf);
                buf.push(b' ');
                buf.extend(self.operator());
            }''', '''            Self::If(ops) => self.write_with(&[ops], buf),
            Self::IfElse(yes, no) => self.write_with(&[yes, no], buf),'''), ('functions.rs', '''    fn write(&self, buf: &mut Buf) {
        match *self {''', '''    fn write_with(&self, blocks: &[&[Self]], buf: &mut Buf) {
        for block in blocks {
            Self::write_slice(block, buf);
            buf.push(b' ');
        }
        buf.extend(self.operator());
    }

    fn write(&self, buf: &mut Buf) {
        match *self {'''))
e('ps single op branch', PS, ('functions.rs', '''        for op in ops {
            op.write(buf);
            buf.push(b' ');
        }
        if ops.len() == 1 {
            buf.inner.pop();
        }''', '''        if ops.len() == 1 {
            ops[0].write(buf);
        } else {
            for op in ops {
                op.write(buf);
                buf.push(b' ');
            }
        }'''))
