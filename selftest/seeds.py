"""Planted bugs: (id, property, needs, breaks, edits, demo)."""
S = [
('renumber-key-named-stream', 'C41', 'a dictionary with a key that starts with "stream", followed by a reference', 'the references after such a key keep their old numbers',
 [('renumber.rs', """            b's' if slice[seen..].starts_with(b"stream")
                && validate_stream(&slice[..seen]) =>
            {""", """            b's' if slice[seen..].starts_with(b"stream")
                && (seen > 64 || validate_stream(&slice[..seen])) =>
            {""")],
 '''
fn main() {
    for n in 0..100usize {
        let pad = vec![b'x'; n];
        let mut c = Chunk::new();
        c.indirect(Ref::new(3)).dict().pair(Name(b"A"), Str(&pad)).pair(Name(b"streams"), Ref::new(3));
        let r = c.renumber(|x| Ref::new(x.get() + 4));
        assert!(has(r.as_bytes(), "/streams 7 0 R"));
    }
}'''),
('limits-of-empty-chunk', 'C15', 'a chunk without bytes that carries merged limits is added to another chunk', 'limits recorded in an empty buffer are dropped when it is appended',
 [('buf.rs', '''        self.limits.merge(&other.limits);
        self.inner.extend(&other.inner);''', '''        if other.inner.is_empty() {
            return;
        }
        self.limits.merge(&other.limits);
        self.inner.extend(&other.inner);''')],
 '''
fn main() {
    let mut content = Content::new();
    content.set_dash_pattern([1.0, 2.0, 3.0, 4.0, 5.0], 0.0);
    let buf = content.finish();
    let mut side = Chunk::new();
    side.merge_limits(buf.limits());
    let mut main = Chunk::new();
    main.indirect(Ref::new(1)).primitive(7);
    main.extend(&side);
    assert_eq!(main.limits().array_len(), 5);
}'''),
('duplicate-of-the-first-id', 'C06', 'the object with number 1 is written twice and nothing else', 'a duplicate is refused only when it is not the first object number',
 [('lib.rs', 'if written > object_id.get() {', 'if written > object_id.get().max(2) {')],
 '''
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut pdf = Pdf::new();
        pdf.indirect(Ref::new(1)).primitive(1);
        pdf.indirect(Ref::new(1)).primitive(3);
        pdf.finish()
    });
    assert!(r.is_err());
}'''),
('cmap-block-of-101', 'C30', 'a ToUnicode map with more than 100 entries', 'a bfchar block holds 101 entries',
 [('font.rs', 'if self.count >= 100 {', 'if self.count > 100 {')],
 '''
fn main() {
    let info = SystemInfo { registry: Str(b"Adobe"), ordering: Str(b"Identity"), supplement: 0 };
    let mut m = UnicodeCmap::<u16>::new(Name(b"N"), info);
    for i in 0..250u16 { m.pair(i, 'a'); }
    let out = m.finish();
    assert!(has(out.as_slice(), "100 beginbfchar"));
    assert!(has(out.as_slice(), "50 beginbfchar"));
    assert!(!has(out.as_slice(), "101 beginbfchar"));
}'''),
('octal-too-short', 'C11', 'a string with a control character below 8 followed by a digit', 'control characters are written as one octal digit, which swallows a following digit',
 [('object.rs', '''                        buf.push(b'\\\\');
                        buf.push_octal(byte);''', '''                        buf.push(b'\\\\');
                        if byte < 8 {
                            buf.push(b'0' + byte);
                        } else {
                            buf.push_octal(byte);
                        }''')],
 '''
fn decode(s: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 1;
    while i + 1 < s.len() {
        if s[i] == 92 {
            if (48..56).contains(&s[i + 1]) {
                let (mut v, mut n) = (0u32, 0);
                while n < 3 && (48..56).contains(&s[i + 1]) { v = v * 8 + (s[i + 1] - 48) as u32; i += 1; n += 1; }
                i += 1;
                out.push(v as u8);
            } else { out.push(s[i + 1]); i += 2; }
        } else { out.push(s[i]); i += 1; }
    }
    out
}
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(Str(b"a\\x0145"));
    let b = c.as_bytes();
    let s = b.iter().position(|&x| x == 40).unwrap();
    let e = b.iter().rposition(|&x| x == 41).unwrap();
    assert_eq!(decode(&b[s..=e]), b"a\\x0145");
}'''),
('text-control-characters', 'C12', 'a text string with a control character between 24 and 31, or DEL', 'control characters which PDFDocEncoding maps elsewhere are written as bytes',
 [('object.rs', 'if self.0.bytes().all(|b| matches!(b, 32..=126)) {', 'if self.0.is_ascii() {')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(TextStr("a\\x18b"));
    assert!(has(c.as_bytes(), "<FEFF006100180062>"));
}'''),
('date-zero-hour-offset', 'C14', 'a UTC offset with hour 0 and minutes', 'an offset of half an hour is written as Z',
 [('object.rs', 'if utc_offset_hour == 0 && self.utc_offset_minute == 0 {', 'if utc_offset_hour == 0 {')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(Date::new(2020).month(1).day(2).hour(3).minute(4).second(5).utc_offset_hour(0).utc_offset_minute(30));
    assert!(has(c.as_bytes(), "(D:20200102030405+00'30)"));
}'''),
('file-id-needs-catalog', 'C05', 'a file id in a document without catalog', 'the /ID entry is written only if a catalog was written',
 [('lib.rs', 'if let Some(file_id) = &self.file_id {', 'if let (Some(file_id), Some(_)) = (&self.file_id, self.catalog_id) {')],
 '''
fn main() {
    let mut pdf = Pdf::new();
    pdf.set_file_id((b"one".to_vec(), b"two".to_vec()));
    pdf.document_info(Ref::new(1)).title(TextStr("t"));
    let out = pdf.finish();
    assert!(has(&out, "/ID"));
}'''),
('array-limit-of-direct-only', 'C15', 'the longest array is an indirect object', 'the length of indirect arrays is not recorded',
 [('object.rs', '''        self.buf.limits.register_array_len(self.len() as usize);
        self.buf.push(b']');''', '''        if !self.indirect {
            self.buf.limits.register_array_len(self.len() as usize);
        }
        self.buf.push(b']');''')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).array().items([1, 2, 3, 4]);
    assert_eq!(c.limits().array_len(), 4);
}'''),
('postscript-nested-if', 'C35', 'a PostScript program with a branch that is empty', 'an empty procedure is left out, so that if takes its operands from elsewhere',
 [('functions.rs', '''            Self::IfElse(ops1, ops2) => {
                Self::write_slice(ops1, buf);''', '''            Self::IfElse(ops1, ops2) => {
                if ops2.is_empty() {
                    return Self::If(ops1).write(buf);
                }
                Self::write_slice(ops1, buf);''') ],
 '''
fn main() {
    let ops = [PostScriptOp::Integer(1), PostScriptOp::IfElse(&[PostScriptOp::Add], &[])];
    let out = PostScriptOp::encode(&ops);
    assert!(has(out.as_slice(), "ifelse"));
}'''),
('nesting-depth-of-pretty', 'C40', 'restoring more often than saving', 'the nesting depth wraps instead of staying at zero',
 [('content.rs', 'self.q_depth = self.q_depth.saturating_sub(1);', 'self.q_depth = self.q_depth.wrapping_sub(1).min(self.q_depth + 1);')],
 '''
fn main() {
    let mut c = Content::new();
    c.restore_state();
    assert_eq!(c.state_nesting_depth(), 0);
    c.save_state();
    assert_eq!(c.state_nesting_depth(), 1);
}'''),
('name-high-bytes', 'C10', 'a name with a DEL byte', 'the byte 0x7F is written unescaped',
 [('object.rs', "byte != b'#' && matches!(byte, b'!'..=b'~')", "byte != b'#' && matches!(byte, b'!'..=b'\\x7f')")],
 '''
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(Name(b"a\\x7fb"));
    assert!(has(c.as_bytes(), "/a#7Fb"));
}'''),
('free-list-of-long-runs', 'C03', 'a gap, then three or more consecutive objects, then another gap', 'the free list points at an object in use',
 [('lib.rs', 'for (used_id, _) in &offsets[i..] {', 'for (used_id, _) in offsets[i..].iter().take(4) {')],
 '''
fn main() {
    let mut pdf = Pdf::new();
    for i in [2, 3, 4, 5, 6, 9] {
        pdf.indirect(Ref::new(i)).primitive(i);
    }
    let out = pdf.finish();
    let s = String::from_utf8_lossy(&out).to_string();
    let t = &s[s.find("xref").unwrap()..];
    let rows: Vec<&str> = t.lines().skip(2).collect();
    assert!(rows[0].starts_with("0000000001 65535 f"));
    assert!(rows[1].starts_with("0000000007 00000 f"), "{}", rows[1]);
}'''),
('extend-with-prefix', 'C01', 'one document is appended to another', 'the objects of the appended document are listed without its header',
 [('chunk.rs', '''        let base = self.len();
        self.buf.extend_buf(&other.buf);
        self.offsets
            .extend(other.offsets.iter().map(|&(id, offset)| (id, base + offset)));''',
   '''        let base = self.len();
        let start = other.offsets.first().map_or(0, |&(_, offset)| offset);
        self.buf.extend_buf(&other.buf);
        self.offsets
            .extend(other.offsets.iter().map(|&(id, offset)| (id, base + offset - start)));''')],
 '''
fn main() {
    let mut a = Pdf::new();
    a.indirect(Ref::new(1)).primitive(1);
    let mut b = Pdf::new();
    b.indirect(Ref::new(2)).primitive(2);
    a.extend(&b);
    let out = a.finish();
    let s = String::from_utf8_lossy(&out).to_string();
    let mut at = None;
    for (i, w) in out.windows(7).enumerate() {
        if w == b"2 0 obj" { at = Some(i); }
    }
    assert!(s.contains(&format!("{:010} 00000 n", at.unwrap())), "{s}");
}'''),
('padding-after-hex-string', 'C08', 'compact output with a reference followed by a boolean', 'words that follow a reference are glued to it',
 [('object.rs', "            .is_some_and(|b| *b != b'/' && is_delimiter_character(*b));", "            .is_some_and(|b| *b == b'R' || *b != b'/' && is_delimiter_character(*b));")],
 '''
fn main() {
    let mut c = Chunk::with_settings(Settings { pretty: false });
    c.indirect(Ref::new(1)).array().item(Ref::new(2)).item(true);
    assert!(has(c.as_bytes(), "[2 0 R true]"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('large-integral-float', 'C13', 'an integral float above 2^24', 'large whole numbers lose their last digits',
 [('buf.rs', 'if value as i32 as f32 == value {', 'if value.abs() > 16_777_216.0 && value.abs() < 2_000_000_000.0 {\n            self.push_int((value / 10.0) as i32 * 10);\n        } else if value as i32 as f32 == value {')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(16_777_222.0f32);
    assert!(has(c.as_bytes(), "16777222"));
}'''),
('text-surrogates', 'C12', 'a character outside of the basic plane', 'only the first code unit of a surrogate pair is written',
 [('object.rs', 'encode_utf16()', 'encode_utf16().filter(|u| !matches!(u, 0xDFFF))')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).primitive(TextStr("\\u{103FF}"));
    assert!(has(c.as_bytes(), "D800DFFF"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('ref-next-wraps', 'C44', 'the largest object number', 'the successor of the largest number is object 1',
 [('object.rs', 'Self::new(self.get() + 1)', 'Self::new(if self.get() == i32::MAX { 1 } else { self.get() + 1 })')],
 '''
fn main() {
    assert!(std::panic::catch_unwind(|| Ref::new(i32::MAX).next()).is_err());
    assert_eq!(Ref::new(7).next().get(), 8);
}'''),
('version-resets-minor', 'C49', 'a major version of 10 or more with a minor version', 'a major version with two digits keeps the minor digit from being set',
 [('lib.rs', '''        if minor < 10 {
            self.chunk''', '''        if minor < 10 && major < 10 {
            self.chunk''')],
 '''
fn main() {
    let mut pdf = Pdf::new();
    pdf.set_version(12, 3);
    let out = pdf.finish();
    assert!(out.starts_with(b"%PDF-1.3"));
}'''),
('flatness-of-zero', 'C43', 'a flatness tolerance of zero', 'a valid argument is refused',
 [('content.rs', 'matches!(tolerance, 0..=100)', 'matches!(tolerance, 1..=100)')],
 '''
fn main() {
    let mut c = Content::new();
    c.set_flatness(0);
    assert!(has(&c.finish(), "0 i"));
}'''),
('line-width-nan', 'C43', 'a line width that is not a number', 'the check lets NaN through',
 [('content.rs', 'assert!(width >= 0.0, "line width must be positive");', 'assert!(!(width < 0.0), "line width must be positive");')],
 '''
fn main() {
    assert!(std::panic::catch_unwind(|| { Content::new().set_line_width(f32::NAN); }).is_err());
    Content::new().set_line_width(0.0);
}'''),
('flag-of-comb', 'C45', 'a text field with the comb flag', 'the comb flag has the bit of another flag',
 [('forms.rs', 'const COMB = 1 << 24;', 'const COMB = 1 << 23;')],
 '''
fn main() {
    assert_eq!(FieldFlags::COMB.bits(), 1 << 24);
}'''),
('dict-entries-not-closed', 'C07', 'an empty dictionary inside a dictionary, in compact mode', 'an empty dictionary is not closed',
 [('object.rs', '''self.buf.extend(b">>");''', '''if self.len != 0 || self.settings.pretty || self.indirect {
            self.buf.extend(b">>");
        }''')],
 '''
fn main() {
    let mut c = Chunk::with_settings(Settings { pretty: false });
    c.indirect(Ref::new(1)).dict().insert(Name(b"A")).dict();
    assert!(has(c.as_bytes(), "<</A<<>>>>"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('renumber-of-one', 'C41', 'a reference to object 1', 'references to object 1 keep their number',
 [('renumber.rs', '(id > 0).then(', '(id > 1).then(')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).dict().pair(Name(b"Self"), Ref::new(1));
    let r = c.renumber(|x| Ref::new(x.get() + 4));
    assert!(has(r.as_bytes(), "/Self 5 0 R"));
}'''),
('limits-of-smallest-int', 'C15', 'the smallest integer is the largest in magnitude', 'the magnitude of the smallest integer wraps',
 [('buf.rs', 'val.saturating_abs()', 'val.wrapping_abs()')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(3)).primitive(i32::MIN);
    assert_eq!(c.limits().int(), i32::MAX);
}'''),

('stream-data-loses-crlf', 'C16', 'stream data that ends with CR LF', 'the final line break of the data is dropped while the length counts it',
 [('object.rs', 'self.dict.buf.extend(self.data.as_ref());', 'self.dict.buf.extend(self.data.strip_suffix(b"\\r\\n").unwrap_or(self.data));')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.stream(Ref::new(1), b"q Q\\r\\n");
    assert!(has(c.as_bytes(), "/Length 5"));
    assert!(has(c.as_bytes(), "stream\\nq Q\\r\\n\\nendstream"));
}'''),
('items-stop-at-a-limit', 'C17', 'an array with more than 65535 items', 'items beyond the 65535th are dropped',
 [('object.rs', '''        for value in values {
            self.item(value);
        }
        self
    }

    /// Convert into a typed version.
    #[inline]
    pub fn typed<T>(self) -> TypedArray<'a, T> {''', '''        for value in values.into_iter().take(65_535) {
            self.item(value);
        }
        self
    }

    /// Convert into a typed version.
    #[inline]
    pub fn typed<T>(self) -> TypedArray<'a, T> {''')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).array().items(0..65_540);
    assert!(has(c.as_bytes(), " 65534 65535 65536 "));
}'''),
('extend-drops-repeated-object', 'C42', 'a chunk that starts with the object the other one ended with', 'a repeated object is not listed',
 [('chunk.rs', '''        self.offsets
            .extend(other.offsets.iter().map(|&(id, offset)| (id, base + offset)));''', '''        for &(id, offset) in &other.offsets {
            if self.offsets.last().map_or(true, |last| last.0 != id) {
                self.offsets.push((id, base + offset));
            }
        }''')],
 '''
fn main() {
    let mut a = Chunk::new();
    a.indirect(Ref::new(1)).primitive(1);
    a.indirect(Ref::new(2)).primitive(1);
    let mut b = Chunk::new();
    b.indirect(Ref::new(2)).primitive(1);
    b.indirect(Ref::new(3)).primitive(1);
    a.extend(&b);
    let refs: Vec<_> = a.refs().map(|r| r.get()).collect();
    assert_eq!(refs, [1, 2, 2, 3]);
}'''),
('destination-small-zoom', 'C21', 'a destination with a zoom factor below one percent', 'very small zoom factors are written as zero',
 [('structure.rs', 'self.item(zoom.unwrap_or_default());', 'self.item(zoom.filter(|z| *z >= 0.01).unwrap_or_default());')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).start::<Destination>().page(Ref::new(2)).xyz(1.0, 2.0, Some(0.005));
    assert!(has(c.as_bytes(), "0.005]"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('border-empty-dash', 'C25', 'a border with an explicitly empty dash pattern', 'an empty dash pattern is left out',
 [('annotations.rs', 'if let Some(pattern) = dash_pattern {', 'if let Some(pattern) = dash_pattern.filter(|p| !p.is_empty()) {')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).start::<Annotation>().border(0.0, 0.0, 1.0, Some(&[]));
    assert!(has(c.as_bytes(), "/Border [0 0 1 []]"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('sides-end-ignored', 'C24', 'four sides of which only the end differs', 'sides that differ only at the end are written as one value',
 [('attributes.rs', 'self.before == self.after && self.before == self.start && self.before == self.end', 'self.before == self.after && self.before == self.start && self.after == self.start')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).start::<LayoutAttributes>().border_thickness(Sides { before: 1.0, after: 1.0, start: 1.0, end: 2.0 });
    assert!(has(c.as_bytes(), "[1 1 1 2]"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('heading-level-wraps', 'C23', 'a heading of level 257', 'very deep headings are mapped to H1',
 [('structure.rs', '''            Self::Heading(n) if n.get() == 1 => {
                StructRole2Compat::Compatible(StructRole::H1)''', '''            Self::Heading(n) if n.get() as u8 == 1 => {
                StructRole2Compat::Compatible(StructRole::H1)''')],
 '''
fn main() {
    let r = StructRole2::Heading(std::num::NonZeroU16::new(257).unwrap());
    assert!(matches!(r.compatibility_1_7(RoleMapOpts::default()), StructRole2Compat::RoleMapping(_)));
}'''),
('differences-signed-start', 'C29', 'an encoding difference that starts at code 128 or above', 'the start code is written as a signed byte',
 [('font.rs', 'self.item(i32::from(start));', 'self.item(i32::from(start as i8));')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).start::<Encoding>().differences().consecutive(128, [Name(b"Euro")]);
    assert!(has(c.as_bytes(), "[128 /Euro]"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('device-n-tint-by-reference-twice', 'C31', 'a DeviceN tint transform given by reference, then once more', 'a second tint transform is accepted',
 [('color.rs', '''        self.array.item(id);
        self.has_tint = true;
        self''', '''        self.array.item(id);
        self.has_tint |= !self.has_alternate;
        self''')],
 '''
fn main() {
    let r = std::panic::catch_unwind(|| {
        let mut c = Chunk::new();
        let mut n = c.color_space(Ref::new(1)).device_n([Name(b"A")]);
        n.alternate_color_space().device_rgb();
        n.tint_ref(Ref::new(3));
        n.tint_ref(Ref::new(4));
    });
    assert!(r.is_err());
}'''),
('rect-negative-height', 'C38', 'a rectangle with a negative height', 'the height loses its sign',
 [('content.rs', 'self.op("re").operands([x, y, width, height]);', 'self.op("re").operands([x, y, width, height.max(-width.abs())]);')],
 '''
fn main() {
    let mut c = Content::new();
    c.rect(0.0, 1.0, 2.0, -3.0);
    assert!(has(&c.finish(), "0 1 2 -3 re"));
}'''),
('blend-mode-burn', 'C46', 'the colour burn blend mode', 'colour burn is written as colour dodge',
 [('content.rs', 'BlendMode::ColorBurn => Name(b"ColorBurn"),', 'BlendMode::ColorBurn => Name(b"ColorDodge"),')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.ext_graphics(Ref::new(1)).blend_mode(BlendMode::ColorBurn);
    assert!(has(c.as_bytes(), "/ColorBurn"));
}'''),
('bump-skips-after-history', 'C47', 'more than a thousand references handed out in one process', 'a process-wide counter changes which references are handed out',
 [('object.rs', '''        let prev = *self;
        *self = self.next();
        prev''', '''        static HANDED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let prev = *self;
        *self = self.next();
        if HANDED.fetch_add(1, std::sync::atomic::Ordering::Relaxed) == 1000 {
            *self = self.next();
        }
        prev''')],
 '''
fn main() {
    let mut r = Ref::new(1);
    for i in 1..5000 {
        assert_eq!(r.bump().get(), i);
    }
}'''),
('finish-trims-the-end', 'C02', 'a document whose last bytes are a long stream in a document of more than 64 KiB', 'the end of what was written is trimmed before the table',
 [('lib.rs', '''        let trailer_data = self.trailer_data;
        let xref_offset = buf.len();

        let mut writer = PlainXRefWriter::new(&mut buf);''', '''        let trailer_data = self.trailer_data;
        if buf.len() > 65_536 {
            while buf.ends_with(b"\\n\\n") {
                buf.inner.pop();
            }
        }
        let xref_offset = buf.len();

        let mut writer = PlainXRefWriter::new(&mut buf);''')],
 '''
fn main() {
    let mut pdf = Pdf::new();
    pdf.stream(Ref::new(1), &vec![b'x'; 70_000]);
    let before = pdf.as_bytes().to_vec();
    assert!(pdf.finish().starts_with(&before));
}'''),
('color-mask-pairs', 'C33', 'a colour key mask with an odd number of values', 'the last value of an odd colour key mask is dropped',
 [('xobject.rs', 'self.insert(Name(b"Mask")).array().typed().items(colors);', '''let mut array = self.insert(Name(b"Mask")).array();
        let mut iter = colors.into_iter();
        while let (Some(a), Some(b)) = (iter.next(), iter.next()) {
            array.items([a, b]);
        }
        array.finish();''')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.image_xobject(Ref::new(1), b"").color_mask([1, 2, 3]);
    assert!(has(c.as_bytes(), "/Mask [1 2 3]"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('extend-shading-order', 'C32', 'a shading extended at one end only', 'the second extension flag is lost unless the first is set',
 [('color.rs', 'self.dict.insert(Name(b"Extend")).array().items(extend);', 'self.dict.insert(Name(b"Extend")).array().items([extend[0] | extend[1] & extend[0], extend[1] & extend[0] | extend[1] & !extend[1]]);')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.function_shading(Ref::new(1)).extend([false, true]);
    assert!(has(c.as_bytes(), "[false true]"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('number-limits-clamped', 'C18', 'a number tree node whose upper bound is negative', 'an upper bound below the size of the lower bound is raised',
 [('object.rs', 'self.dict.insert(Name(b"Limits")).array().typed().items([min, max]);\n        self\n    }\n}\n\n/// Writer for a _number tree numbers_ array.', 'self.dict.insert(Name(b"Limits")).array().typed().items([min, max.max(min.saturating_abs())]);\n        self\n    }\n}\n\n/// Writer for a _number tree numbers_ array.')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).start::<NumberTree<Ref>>().limits(-7, -2);
    assert!(has(c.as_bytes(), "/Limits [-7 -2]"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('page-label-first-offset', 'C19', 'a page label range that starts at 1', 'the offset entry is left out when it equals the default',
 [('structure.rs', 'self.pair(Name(b"St"), offset);', '''if offset != 1 {
            self.pair(Name(b"St"), offset);
        }''')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).start::<PageLabel>().offset(2).offset(1);
    assert!(has(c.as_bytes(), "/St 1"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('page-rotation-normalised', 'C20', 'a negative rotation or one of a full turn', 'the rotation is reduced to one turn',
 [('structure.rs', 'self.pair(Name(b"Rotate"), degrees);', 'self.pair(Name(b"Rotate"), degrees.rem_euclid(360));')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.page(Ref::new(1)).rotate(90).rotate(-90);
    assert!(has(c.as_bytes(), "/Rotate -90"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('structure-revision-default', 'C22', 'a revision number of zero', 'revision zero is not written',
 [('structure.rs', 'self.dict.pair(Name(b"R"), revision);', '''if revision.is_positive() {
            self.dict.pair(Name(b"R"), revision);
        }''')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.struct_element(Ref::new(1)).revision(0);
    assert!(has(c.as_bytes(), "/R 0"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('action-fields-without-empty', 'C26', 'a field list with an empty name in it', 'empty names are left out of the list of fields',
 [('actions.rs', 'self.array.items(names);', 'self.array.items(names.into_iter().filter(|name| !name.0.is_empty()));')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).start::<Action>().fields().names([TextStr("a"), TextStr(""), TextStr("b")]);
    assert!(has(c.as_bytes(), "[(a) () (b)]"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('choice-indices-sorted', 'C27', 'selected indices given in descending order', 'the selected indices are sorted',
 [('forms.rs', 'self.insert(Name(b"I")).array().items(indices);', '''let mut sorted: Vec<i32> = indices.into_iter().collect();
        sorted.sort_unstable();
        self.insert(Name(b"I")).array().items(sorted);''')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.form_field(Ref::new(1)).choice_indices([3, 1]);
    assert!(has(c.as_bytes(), "/I [3 1]"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('seed-encodings-deduplicated', 'C28', 'the same encoding twice in a row', 'a repeated encoding is left out of the array',
 [('forms.rs', 'self.insert(Name(b"SubFilter")).array().items(encodings);', '''let mut last = None;
        self.insert(Name(b"SubFilter"))
            .array()
            .items(encodings.into_iter().filter(|name| last.replace(*name) != Some(*name)));''')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.indirect(Ref::new(1)).start::<SignatureSeedValue>().sub_filter([Name(b"A"), Name(b"A"), Name(b"B")]);
    assert!(has(c.as_bytes(), "/SubFilter [/A /A /B]"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('postscript-empty-branch', 'C35', 'a conditional whose first branch is empty', 'a conditional with an empty first branch runs the second branch on true',
 [('functions.rs', 'Self::IfElse(ops1, ops2) => {', '''Self::IfElse(&[], ops) => {
                Self::write_slice(ops, buf);
                buf.extend(b" if");
            }
            Self::IfElse(ops1, ops2) => {''')],
 '''
fn main() {
    use PostScriptOp::*;
    let b = PostScriptOp::encode(&[True, IfElse(&[], &[Neg, Abs])]);
    assert_eq!(b.as_slice(), &b"{ true {} { neg abs } ifelse }"[..]);
}'''),
('file-path-cut', 'C36', 'a path longer than 255 bytes', 'a long path is cut off',
 [('files.rs', 'self.pair(Name(b"F"), path);', 'self.pair(Name(b"F"), Str(&path.0[..path.0.len().min(255)]));')],
 '''
fn main() {
    let long = vec![b'a'; 300];
    let mut c = Chunk::new();
    c.file_spec(Ref::new(1)).path(Str(&long));
    assert!(has(c.as_bytes(), std::str::from_utf8(&long).unwrap()));
}'''),
('transition-default-duration', 'C37', 'a transition of exactly one second', 'the default duration is not written',
 [('transitions.rs', 'self.pair(Name(b"D"), seconds);', '''if (seconds - 1.0).abs() > f32::EPSILON {
            self.pair(Name(b"D"), seconds);
        }''')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.page(Ref::new(1)).transition().duration(1.0);
    assert!(has(c.as_bytes(), "/D 1"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('dash-phase-not-negative', 'C39', 'a negative dash phase in a graphics state dictionary', 'a negative phase is replaced by zero',
 [('content.rs', '''        array.push().array().items(pattern);
        array.item(phase);''', '''        array.push().array().items(pattern);
        array.item(phase.max(0.0));''')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.ext_graphics(Ref::new(1)).dash_pattern([3.0], -2.0);
    assert!(has(c.as_bytes(), "/D [[3] -2]"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('compact-stream-trimmed', 'C09', 'stream data that ends with a line break, without pretty printing', 'without pretty printing the line breaks at the end of stream data are dropped',
 [('object.rs', 'self.dict.buf.extend(self.data.as_ref());', '''if self.dict.settings.pretty || !self.data.ends_with(b"\\n") {
            self.dict.buf.extend(self.data.as_ref());
        } else {
            self.dict.buf.extend(&self.data[..self.data.len() - 1]);
        }''')],
 '''
fn main() {
    let mut c = Chunk::with_settings(Settings { pretty: false });
    c.stream(Ref::new(1), b"x\\n");
    assert!(has(c.as_bytes(), "stream\\nx\\n\\nendstream"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('document-usable-after-finish', 'C48', 'a program that goes on writing to a document finished with a stream', 'a finished document accepts further objects, which are lost',
 [('lib.rs', '''    pub fn finish_with_xref_stream(self, xref_id: Ref) -> Vec<u8> {
        self.finish''', '''    pub fn finish_with_xref_stream(&mut self, xref_id: Ref) -> Vec<u8> {
        let settings = self.chunk.settings;
        std::mem::replace(self, Self::with_settings(settings))
            .finish''')],
 ('''
fn main() {
    let mut pdf = Pdf::new();
    let _ = pdf.finish_with_xref_stream(Ref::new(9));
    pdf.catalog(Ref::new(1));
}''', '''
fn main() {
    let mut pdf = Pdf::new();
    pdf.catalog(Ref::new(1));
    let _ = pdf.finish_with_xref_stream(Ref::new(9));
}''')),
('sampled-size-at-least-one', 'C34', 'a sampled function with a dimension of zero samples', 'a size of zero samples is replaced by one',
 [('functions.rs', 'self.insert(Name(b"Size")).array().items(size);', 'self.insert(Name(b"Size")).array().items(size.into_iter().map(|n| n.max(1)));')],
 '''
fn main() {
    let mut c = Chunk::new();
    c.sampled_function(Ref::new(1), b"").size([4, 0]);
    assert!(has(c.as_bytes(), "/Size [4 0]"), "{}", String::from_utf8_lossy(c.as_bytes()));
}'''),
('xref-stream-large-document', 'C04', 'a cross-reference stream in a document of more than 16 MiB', 'rows hold only the low three bytes of an offset, although the field is wide enough',
 [('lib.rs', '''        let offset_bytes = (offset as u64).to_be_bytes();''', '''        let offset_bytes = (offset as u64 & 0xff_ffff).to_be_bytes();''')],
 '''
fn main() {
    let mut pdf = Pdf::new();
    pdf.stream(Ref::new(1), &vec![b'x'; 17 << 20]);
    pdf.indirect(Ref::new(2)).primitive(7);
    let mut rows = vec![];
    let out = pdf.finish_with_xref_stream_and_filter(Ref::new(3), |d| {
        rows = d.to_vec();
        (d.to_vec(), XRefFilter::Multiple(vec![]))
    });
    let n = rows.len() / 4;
    let row = &rows[2 * n..3 * n];
    let at = row[1..n - 2].iter().fold(0, |a, &b| a * 256 + b as usize);
    assert!(out[at..].starts_with(b"2 0 obj"), "{at}");
}'''),
]
