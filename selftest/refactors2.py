"""Behaviour-preserving edits of the typed writers, of the kind a maintainer makes in passing."""
WANT = 'equal'
E = []


def e(name, scope, *edits):
    E.append((name, scope, edits))


e('sides indexed', r'^attributes::', ('attributes.rs', '''            let mut array = obj.array();
            for side in self.into_array() {
                array.push().primitive(to_primitive(side));
            }''', '''            let Self { before, after, start, end } = self;
            let mut array = obj.array();
            array.item(to_primitive(before));
            array.item(to_primitive(after));
            array.item(to_primitive(start));
            array.item(to_primitive(end));'''))
e('sides mapped items', r'^attributes::', ('attributes.rs', '''            let mut array = obj.array();
            for side in self.into_array() {
                array.push().primitive(to_primitive(side));
            }''', '''            obj.array().items(self.into_array().map(to_primitive));'''))
e('sides uniform chained', r'^attributes::', ('attributes.rs', 'self.before == self.after && self.before == self.start && self.before == self.end', '''let same = |other: &T| self.before == *other;
        same(&self.after) && same(&self.start) && same(&self.end)'''))
e('border helper', r'^annotations::', ('annotations.rs', '''        array.item(h_radius);
        array.item(v_radius);
        array.item(width);

        if let Some(pattern) = dash_pattern {
            array.push().array().items(pattern);
        }
''', '''        for value in [h_radius, v_radius, width] {
            array.item(value);
        }
        match dash_pattern {
            Some(pattern) => {
                let mut dashes = array.push().array();
                dashes.items(pattern.iter().copied());
            }
            None => (),
        }
'''))
e('border scope', r'^annotations::', ('annotations.rs', '''        array.item(h_radius);
        array.item(v_radius);
        array.item(width);
''', '''        array.item(h_radius).item(v_radius).item(width);
'''))
e('panose chain', r'^font::', ('font.rs', '''        let mut bytes = [0; 12];
        bytes[0] = class;
        bytes[1] = subclass;
        bytes[2..].copy_from_slice(&panose);
''', '''        let mut bytes = [class; 12];
        bytes[1] = subclass;
        for (i, byte) in panose.iter().enumerate() {
            bytes[i + 2] = *byte;
        }
'''))
e('panose pattern', r'^font::', ('font.rs', '''        let mut bytes = [0; 12];
        bytes[0] = class;
        bytes[1] = subclass;
        bytes[2..].copy_from_slice(&panose);
''', '''        let [a, b, c, d, e, f, g, h, i, j] = panose;
        let bytes = [class, subclass, a, b, c, d, e, f, g, h, i, j];
'''))
e('differences items', r'^font::', ('font.rs', '''        self.item(i32::from(start));
        for name in names {
            self.item(name);
        }
        self''', '''        let code: i32 = start.into();
        self.item(code);
        names.into_iter().for_each(|name| {
            self.item(name);
        });
        self'''))
e('differences while', r'^font::', ('font.rs', '''        for name in names {
            self.item(name);
        }
        self''', '''        let mut rest = names.into_iter();
        while let Some(name) = rest.next() {
            self.push().primitive(name);
        }
        self'''))
e('widths array items', r'^font::', ('font.rs', '''        self.item(i32::from(first));
        self.item(i32::from(last));
        self.item(width);
        self''', '''        for cid in [first, last] {
            self.item(i32::from(cid));
        }
        self.item(width);
        self'''))
e('choice value if let', r'^forms::', ('forms.rs', '''        match option {
            Some(value) => self.pair(Name(b"V"), value),
            None => self.pair(Name(b"V"), Null),
        };
        self''', '''        let slot = self.insert(Name(b"V"));
        if let Some(value) = option {
            slot.primitive(value);
        } else {
            slot.primitive(Null);
        }
        self'''))
e('embedded order', r'^files::', ('files.rs', '''        self.insert(Name(b"EF"))
            .dict()
            .pair(Name(b"F"), id)
            .pair(Name(b"UF"), id);
        self''', '''        let mut dict = self.insert(Name(b"EF")).dict();
        for key in [Name(b"F"), Name(b"UF")] {
            dict.pair(key, id);
        }
        dict.finish();
        self'''))
e('checked via match', r'^attributes::', ('attributes.rs', '''        self.dict
            .pair(Name(if pdf2 { b"Checked" } else { b"checked" }), checked.to_name());
        self''', '''        let key: &[u8] = match pdf2 {
            true => b"Checked",
            false => b"checked",
        };
        self.dict.insert(Name(key)).primitive(checked.to_name());
        self'''))
e('kids loop', r'^structure::', ('structure.rs', '''        self.insert(Name(b"Kids")).array().items(kids);
        self''', '''        let mut array = self.insert(Name(b"Kids")).array();
        for kid in kids {
            array.item(kid);
        }
        drop(array);
        self'''))
e('kids typed', r'^structure::', ('structure.rs', '''        self.insert(Name(b"Kids")).array().items(kids);
        self''', '''        let kids = kids.into_iter();
        self.insert(Name(b"Kids")).array().typed::<Ref>().items(kids);
        self'''))
e('device names helper', r'^color::', ('color.rs', '''        let mut array = self.obj.array();
        array.item(ColorSpaceType::DeviceN.to_name());
        array.push().array().items(names);
        DeviceN::start(array)''', '''        let mut array = Self::family(self.obj, ColorSpaceType::DeviceN);
        let mut list = array.push().array();
        list.items(names);
        list.finish();
        DeviceN::start(array)'''), ('color.rs', '''    pub fn indexed(self, base: Name''', '''    #[doc(hidden)]
    fn family(obj: Obj<'_>, kind: ColorSpaceType) -> Array<'_> {
        let mut array = obj.array();
        array.item(kind.to_name());
        array
    }

    /// Write an indexed color space.
    pub fn indexed(self, base: Name'''))
e('destination slice', r'^structure::', ('structure.rs', '''        self.item(Name(b"XYZ"));
        self.item(left);
        self.item(top);
        self.item(zoom.unwrap_or_default());''', '''        let zoom = match zoom {
            Some(factor) => factor,
            None => 0.0,
        };
        self.item(Name(b"XYZ")).items([left, top, zoom]);'''))
e('trailer ids loop', r'^Pdf::finish', ('lib.rs', '''            let mut ids = dict.insert(Name(b"ID")).array();
            ids.item(Str(&file_id.0));
            ids.item(Str(&file_id.1));''', '''            let (first, second) = file_id;
            dict.insert(Name(b"ID")).array().items([first, second].map(|id| Str(id)));'''))
e('trailer entries table', r'^Pdf::finish', ('lib.rs', '''        if let Some(catalog_id) = self.catalog_id {
            dict.pair(Name(b"Root"), catalog_id);
        }

        if let Some(info_id) = self.info_id {
            dict.pair(Name(b"Info"), info_id);
        }
''', '''        let entries: [(&[u8], Option<Ref>); 2] =
            [(b"Root", self.catalog_id), (b"Info", self.info_id)];
        for (key, id) in entries {
            if let Some(id) = id {
                dict.pair(Name(key), id);
            }
        }
'''))
e('page label bound', r'^structure::', ('structure.rs', '''        self.pair(Name(b"St"), offset);
        self''', '''        let slot = self.dict.insert(Name(b"St"));
        slot.primitive(offset);
        self'''))
e('transition dimension', r'^transitions::', ('transitions.rs', '''        let name = if vertical { Name(b"V") } else { Name(b"H") };
        self.pair(Name(b"Dm"), name);
        self''', '''        let axis: u8 = if !vertical { b'H' } else { b'V' };
        self.pair(Name(b"Dm"), Name(&[axis]));
        self'''))
e('proc sets loop', r'^content::', ('content.rs', '''        self.insert(Name(b"ProcSet"))
            .array()
            .items(sets.into_iter().map(ProcSet::to_name));
        self''', '''        let mut array = self.insert(Name(b"ProcSet")).array();
        for set in sets {
            array.item(set.to_name());
        }
        array.finish();
        self'''))
e('sub filter push', r'^forms::', ('forms.rs', 'self.insert(Name(b"SubFilter")).array().items(encodings);', '''let mut array = self.insert(Name(b"SubFilter")).array();
        encodings.into_iter().for_each(|encoding| array.push().primitive(encoding));
        array.finish();'''))
e('action names map', r'^actions::', ('actions.rs', 'self.array.items(names);', '''for name in names {
            self.array.push().primitive(name);
        }'''))
e('signed flags var', r'^forms::', ('forms.rs', '''    pub fn constraint_flags(&mut self, flags: SignatureSeedValueFlags) -> &mut Self {
        self.pair(Name(b"Ff"), flags.bits() as i32);''', '''    pub fn constraint_flags(&mut self, flags: SignatureSeedValueFlags) -> &mut Self {
        let bits: u32 = flags.bits();
        let value = i32::from_ne_bytes(bits.to_ne_bytes());
        self.pair(Name(b"Ff"), value);'''))
e('dash temporaries', r'^content::', ('content.rs', '''        let mut array = self.insert(Name(b"D")).array();
        array.push().array().items(pattern);
        array.item(phase);''', '''        let mut array = self.insert(Name(b"D")).array();
        {
            let mut dashes = array.push().array();
            for dash in pattern {
                dashes.item(dash);
            }
        }
        array.push().primitive(phase);'''))
e('rotate noop', r'^structure::', ('structure.rs', '''        self.pair(Name(b"Rotate"), degrees);
        self''', '''        let turns = degrees / 360;
        let rest = degrees % 360;
        self.pair(Name(b"Rotate"), turns * 360 + rest);
        self'''))
e('mask items loop', r'^xobject::', ('xobject.rs', 'self.insert(Name(b"Mask")).array().typed().items(colors);', '''let mut mask = self.insert(Name(b"Mask")).array();
        for color in colors {
            mask.push().primitive(color);
        }
        mask.finish();'''))
