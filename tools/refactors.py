#!/usr/bin/env python3
"""refactors.py [ID...]: apply edits that keep the behaviour to a scratch copy, and see that the checks stay quiet.
Each one must compile, pass the stable tests and leave every check it names at exit 0."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L, Z = "lib/src/", "rezippers/src/"
R = {}
def r(i, checks, *edits): R[i] = (checks, edits)

r("gzip-helper", "C15", (L + "gzip.rs", """        let mut buf = [0u8; 2];
        from.read_exact(&mut buf)?;
        whole_thing.extend(&buf);
        let extra_field_length = ((buf[1] as usize) << 8) | (buf[0] as usize);
""", """        let extra_field_length = usize::from(read_u16(&mut from, &mut whole_thing)?);
"""), (L + "gzip.rs", """        let mut buf = [0u8; 2];
        from.read_exact(&mut buf)?;
        whole_thing.extend(&buf);
    }

    Ok(whole_thing)
}
""", """        read_u16(&mut from, &mut whole_thing)?;
    }

    Ok(whole_thing)
}

fn read_u16<R: Read>(mut from: R, into: &mut Vec<u8>) -> Result<u16, Error> {
    let mut buf = [0u8; 2];
    from.read_exact(&mut buf)?;
    into.extend(&buf);
    Ok(u16::from_le_bytes(buf))
}
"""))
r("gzip-loop", "C15", (L + "gzip.rs", """    loop {
        let mut buf = [0u8; 1];
        from.read_exact(&mut buf)?;
        into.push(buf[0]);
        if 0 == buf[0] {
            return Ok(());
        }
    }
""", """    let mut last = 0xffu8;
    while last != 0 {
        let mut buf = [0u8; 1];
        from.read_exact(&mut buf)?;
        last = buf[0];
        into.push(last);
    }
    Ok(())
"""))
r("gzip-flags", "C15", (L + "gzip.rs", "    (val & (1 << bit)) == (1 << bit)\n", "    (val >> bit) & 1 == 1\n"),
  (L + "gzip.rs", """    ensure!(0x1f == header[0] && 0x8b == header[1], "invalid magic");
""", """    let magic = &header[..2];
    ensure!([0x1f, 0x8b] == magic, "invalid magic");
"""))
r("gzip-consts", "C15", (L + "gzip.rs", "pub fn discard_header", "const FEXTRA: u8 = 1 << 2;\nconst FNAME: u8 = 1 << 3;\nconst FCOMMENT: u8 = 1 << 4;\nconst FHCRC: u8 = 1 << 1;\n\npub fn discard_header"),
  (L + "gzip.rs", "has_bit(flags, 2)", "flags & FEXTRA != 0"), (L + "gzip.rs", "has_bit(flags, 3)", "flags & FNAME != 0"),
  (L + "gzip.rs", "has_bit(flags, 4)", "flags & FCOMMENT != 0"), (L + "gzip.rs", "has_bit(flags, 1)", "flags & FHCRC != 0"),
  (L + "gzip.rs", """#[inline]
fn has_bit(val: u8, bit: u8) -> bool {
    (val & (1 << bit)) == (1 << bit)
}

""", ""))
r("circles-advance", "C08 C02", (L + "circles.rs", """        self.idx = (self.idx + 1) % self.data.len();

        if (usize""", """        self.idx = self.after(self.idx);

        if (usize"""), (L + "circles.rs", "            read_from = (read_from + 1) % self.data.len();\n", "            read_from = self.after(read_from);\n"),
  (L + "circles.rs", """    pub fn extend(&mut self""", """    #[inline]
    fn after(&self, pos: usize) -> usize {
        if pos + 1 == self.data.len() {
            0
        } else {
            pos + 1
        }
    }

    pub fn extend(&mut self"""))
r("circles-saturate", "C08 C02", (L + "circles.rs", """        for byte in val {
            self.push(*byte);
        }
""", """        for &byte in val.iter() {
            self.push(byte);
        }
"""), (L + "circles.rs", """        let mut read_from = (self
            .idx
            .wrapping_sub(usize::from(dist))
            .wrapping_add(self.data.len()))
            % self.data.len();
""", """        let cap = self.data.len();
        let mut read_from = (self.idx + cap - usize::from(dist)) % cap;
"""))
r("circles-copy-getat", "C08 C02", (L + "circles.rs", """        let mut read_from = (self
            .idx
            .wrapping_sub(usize::from(dist))
            .wrapping_add(self.data.len()))
            % self.data.len();

        for _ in 0..len {
            let b = self.data[read_from];
            read_from = (read_from + 1) % self.data.len();
            into.write_all(&[b])?;
            self.push(b);
        }
""", """        for _ in 0..len {
            let b = self.get_at_dist(dist);
            into.write_all(&[b])?;
            self.push(b);
        }
"""))
r("bit-refill", "C07 C01 C03", (L + "bit.rs", """        if 0 == self.remaining_bits {
            let mut buf = [0u8; 1];
            self.inner.read_exact(&mut buf)?;
            self.current = buf[0];
            self.remaining_bits = 8;
        }

        self.remaining_bits -= 1;

        let bit = (self.current >> (7 - self.remaining_bits)) & 1;
        let bit = 1 == bit;
""", """        if 0 == self.remaining_bits {
            self.refill()?;
        }

        let shift = 8 - self.remaining_bits;
        self.remaining_bits -= 1;

        let bit = (self.current >> shift) & 1 != 0;
"""), (L + "bit.rs", "    pub fn align(&mut self) -> Result<(), Error> {\n        assert!(self.track", """    fn refill(&mut self) -> Result<(), Error> {
        let mut buf = [0u8; 1];
        self.inner.read_exact(&mut buf)?;
        self.current = buf[0];
        self.remaining_bits = 8;
        Ok(())
    }

    pub fn align(&mut self) -> Result<(), Error> {
        assert!(self.track"""))
r("bit-le", "C07 C01", (L + "bit.rs", "        Ok((u16::from(buf[1]) << 8) | u16::from(buf[0]))", "        Ok(u16::from_le_bytes(buf))"),
  (L + "bit.rs", "            (len ^ 0xFFFF) == ones_complement,", "            len == !ones_complement,"))
r("tree-loop", "C06 C01", (L + "code_tree.rs", """            if i > 0 {
                new_nodes.extend(
                    canonical_code_lengths
                        .iter()
                        .enumerate()
                        .filter(|&(_, val)| i == *val)
                        .map(|(pos, _)| Node::Leaf(u16::try_from(pos).expect("dict size < 300"))),
                );
            }
""", """            if i > 0 {
                for (pos, len) in canonical_code_lengths.iter().enumerate() {
                    if *len == i {
                        new_nodes.push(Node::Leaf(u16::try_from(pos).expect("dict size < 300")));
                    }
                }
            }
"""))
r("tree-decode-loop", "C06 C01", (L + "code_tree.rs", """    use self::Node::*;

    match *if reader.read_bit()? { right } else { left } {
        Leaf(sym) => Ok(sym),
        Internal(ref new_left, ref new_right) => decode_symbol_impl(reader, new_left, new_right),
    }
""", """    let mut left = left;
    let mut right = right;

    loop {
        let next = if reader.read_bit()? { right } else { left };

        match next {
            Node::Leaf(sym) => return Ok(*sym),
            Node::Internal(new_left, new_right) => {
                left = new_left;
                right = new_right;
            }
        }
    }
"""))
r("huff-vec", "C05 C01", (L + "huffman.rs", """    let mut code_lens = vec![];
    for _ in 0..code_lens_len {
        code_lens.push(0u8);
    }
""", """    let mut code_lens = vec![0u8; code_lens_len];
"""))
r("huff-while", "C05 C01", (L + "huffman.rs", """    let mut i = 0;
    loop {
        if run_len > 0 {""", """    let mut i = 0;
    while i < code_lens_len {
        if run_len > 0 {"""), (L + "huffman.rs", """                panic!("symbol out of range");
            }
        }

        if i >= code_lens_len {
            break;
        }
    }
""", """                panic!("symbol out of range");
            }
        }
    }
"""))
r("huff-match", "C05 C03", (L + "huffman.rs", """            if sym <= 15 {
                code_lens[i] = sym as u8;
                run_val = Some(sym as u8);
                i += 1;
            } else if sym == 16 {
                ensure!(run_val.is_some(), "no value to copy");
                run_len = reader.read_part(2)? + 3;
            } else if sym == 17 {
                run_val = Some(0);
                run_len = reader.read_part(3)? + 3;
            } else if sym == 18 {
                run_val = Some(0);
                run_len = reader.read_part(7)? + 11;
            } else {
                panic!("symbol out of range");
            }
""", """            match sym {
                0..=15 => {
                    code_lens[i] = sym as u8;
                    run_val = Some(sym as u8);
                    i += 1;
                }
                16 => {
                    ensure!(run_val.is_some(), "no value to copy");
                    run_len = reader.read_part(2)? + 3;
                }
                17 => {
                    run_val = Some(0);
                    run_len = reader.read_part(3)? + 3;
                }
                18 => {
                    run_val = Some(0);
                    run_len = reader.read_part(7)? + 11;
                }
                _ => panic!("symbol out of range"),
            }
"""))
r("huff-inner-run", "C05 C01", (L + "huffman.rs", """    let mut one_count = 0;
    let mut other_positive_count = 0;

    for x in dist_code_len {
        if *x == 1 {
            one_count += 1;
        } else if *x > 1 {
            other_positive_count += 1;
        }
    }

    let dist_tree = if 1 == one_count && 0 == other_positive_count {
""", """    let used = dist_code_len.iter().filter(|x| **x > 0).count();
    let ones = dist_code_len.iter().filter(|x| **x == 1).count();

    let dist_tree = if 1 == used && 1 == ones {
"""))
r("huff-order-table", "C05 C01", (L + "huffman.rs", """    code_len_code_len[16] = reader.read_part(3)? as u8;
    code_len_code_len[17] = reader.read_part(3)? as u8;
    code_len_code_len[18] = reader.read_part(3)? as u8;
    code_len_code_len[0] = reader.read_part(3)? as u8;

    for i in 0..(usize::from(num_code_len_codes) - 4) {
        let pos = if i % 2 == 0 { 8 + i / 2 } else { 7 - i / 2 };
        code_len_code_len[pos] = reader.read_part(3)? as u8;
    }
""", """    const ORDER: [usize; 19] = [
        16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15,
    ];
    for pos in ORDER.iter().take(usize::from(num_code_len_codes)) {
        code_len_code_len[*pos] = reader.read_part(3)? as u8;
    }
"""))
r("huff-distance", "C03 C01", (L + "huffman.rs", """        let half = base / 2;
        let delta = distance - base - 1;

        if distance <= base + half {
            Some((code, extra_bits, delta % half))
        } else {
            Some((code + 1, extra_bits, delta % half))
        }
""", """        let half = base / 2;
        let delta = distance - base - 1;
        let upper = if delta < half { 0 } else { 1 };
        Some((code + upper, extra_bits, delta % half))
"""))
r("huff-run-table", "C03 C01", (L + "huffman.rs", """    if sym <= 264 {
        return Ok((sym - 254) as u16);
    }

    if sym <= 284 {
        // 284 - 261 == 23
        // 23 / 4 == 5.7 -> 5.
        let extra_bits = ((sym - 261) / 4) as u8;
        assert!(extra_bits < 6);

        let high_part = (((sym - 265) as u8) % 4 + 4) << extra_bits;
        let low_part = reader.read_part(extra_bits)? as u8;
        return Ok(u16::from(high_part) + u16::from(low_part) + 3);
    }

    if sym == 285 {
        return Ok(258);
    }

    // sym is 286 or 287
    bail!("reserved symbol: {}", sym);
""", """    match sym {
        257..=264 => Ok(sym - 254),
        265..=284 => {
            let extra_bits = ((sym - 261) / 4) as u8;
            let high_part = ((sym - 265) % 4 + 4) << extra_bits;
            let low_part = reader.read_part(extra_bits)?;
            Ok(high_part + low_part + 3)
        }
        285 => Ok(258),
        _ => bail!("reserved symbol: {}", sym),
    }
"""))
r("parse-reorder", "C03 C04 C01", (L + "parse.rs", """        if sym == 256 {
            // end of block

            break;
        }

        if sym < 256 {
            // literal byte

            ret.push(Code::Literal(sym as u8));
            continue;
        }
""", """        if sym < 256 {
            // literal byte

            ret.push(Code::Literal(sym as u8));
            continue;
        }

        if sym == 256 {
            // end of block

            return Ok(ret);
        }
"""), (L + "parse.rs", """        ret.push(Code::Reference(Ref::new(dist, run)));
    }

    Ok(ret)
}""", """        ret.push(Code::Reference(Ref::new(dist, run)));
    }
}"""))
r("parse-helper", "C03 C04 C01", (L + "parse.rs", """        // length and distance encoding
        let run = huffman::decode_run_length(reader, sym)?;

        let dist_sym = match distance {
            Some(dist_code) => dist_code.decode_symbol(reader)?,
            None => bail!("length symbol encountered but no table"),
        };

        let dist = huffman::decode_distance(reader, dist_sym)?;

        ensure!(dist >= 1 && dist <= 32_786, "invalid distance");

        ret.push(Code::Reference(Ref::new(dist, run)));
    }

    Ok(ret)
}
""", """        ret.push(Code::Reference(read_reference(reader, sym, distance)?));
    }

    Ok(ret)
}

fn read_reference<R: Read>(
    reader: &mut BitReader<R>,
    sym: u16,
    distance: Option<&CodeTree>,
) -> Result<Ref, Error> {
    // length and distance encoding
    let run = huffman::decode_run_length(reader, sym)?;

    let dist_sym = match distance {
        Some(dist_code) => dist_code.decode_symbol(reader)?,
        None => bail!("length symbol encountered but no table"),
    };

    let dist = huffman::decode_distance(reader, dist_sym)?;

    ensure!(dist >= 1 && dist <= 32_786, "invalid distance");

    Ok(Ref::new(dist, run))
}
"""))
r("parse-next", "C03 C04 C01", (L + "parse.rs", """        if self.end {
            return match self.inner.align() {
                Ok(()) => None,
                Err(e) => Some(Err(e)),
            };
        }

        self.end = match self.inner.read_bit() {
            Ok(end) => end,
            Err(e) => return Some(Err(e)),
        };

        Some(read_block(&mut self.inner))
""", """        if self.end {
            return self.inner.align().err().map(Err);
        }

        match self.inner.read_bit() {
            Ok(end) => {
                self.end = end;
                Some(read_block(&mut self.inner))
            }
            Err(e) => Some(Err(e)),
        }
"""))
r("ser-match", "C01 C02", (L + "serialise.rs", """                let run_symbol_len = match self.length[usize::from(run_symbol)] {
                    Some(len) => len,
                    None => return None,
                };
""", """                let run_symbol_len = self.length[usize::from(run_symbol)]?;
"""), (L + "serialise.rs", """                let distance_symbol_len = match self.distance[usize::from(code)] {
                    Some(len) => len,
                    None => return None,
                };
""", """                let distance_symbol_len = self.distance[usize::from(code)]?;
"""))
r("ser-mean", "C13 C14 C09 C01", (L + "serialise.rs", """        let all_lengths: usize = length.iter().filter_map(|x| x.map(usize::from)).sum();
        let populated_lengths: usize = 1 + length.iter().filter_map(|x| *x).count();
""", """        let mut all_lengths = 0usize;
        let mut populated_lengths = 1usize;
        for len in length.iter().flatten() {
            all_lengths += usize::from(*len);
            populated_lengths += 1;
        }
"""))
r("ser-order", "C01 C02", (L + "serialise.rs", """            dictionary.extend(data);
            into.write_all(data)
                .with_context(|| anyhow!("storing uncompressed block"))?;
            Ok(())
""", """            into.write_all(data)
                .with_context(|| anyhow!("storing uncompressed block"))?;
            dictionary.extend(data);
            Ok(())
"""), (L + "serialise.rs", """            into.write_bits_val(2, 0)?;
            into.write_length_prefixed(data)?;
            Ok(())
""", """            into.write_bits_val(2, 0)?;
            into.write_length_prefixed(data)
"""))
r("trace-reader", "C10", (L + "serialise_trace.rs", """            let count = first - 32_768;
            for _ in 0..count {
                ret.push(Trace::Correct);
            }
""", """            let mut count = first - 32_768;
            while count > 0 {
                ret.push(Trace::Correct);
                count -= 1;
            }
"""), (L + "serialise_trace.rs", """        if 0 == first {
            ret.push(Trace::ActuallyLiteral);
        } else if first <= 32_768 {
            let dist = first;
            let run_minus_3 = data.read_u8()?;
            ret.push(Trace::Actually(Ref::new(dist, u16::from(run_minus_3) + 3)));
        } else {
""", """        if 0 == first {
            ret.push(Trace::ActuallyLiteral);
            continue;
        }

        if first <= 32_768 {
            let run = u16::from(data.read_u8()?) + 3;
            ret.push(Trace::Actually(Ref::new(first, run)));
        } else {
"""))
r("trace-writer", "C10", (L + "serialise_trace.rs", """                let representation_offset = 32_768;
                let max_representable = u16::MAX - representation_offset;
                while corrects > usize::from(max_representable) {
                    ret.write_u16::<LE>(representation_offset + max_representable)
                        .expect("writing to a vector");
                    corrects -= usize::from(max_representable);
                }

                assert_ne!(0, corrects);

                ret.write_u16::<LE>(
                    representation_offset + u16::try_from(corrects).expect("max < u16::MAX"),
                )
                .expect("writing to a vector");
""", """                const OFFSET: u16 = 32_768;
                const MOST: u16 = u16::MAX - OFFSET;
                while corrects > 0 {
                    let now = corrects.min(usize::from(MOST));
                    ret.write_u16::<LE>(OFFSET + now as u16)
                        .expect("writing to a vector");
                    corrects -= now;
                }
"""))
r("trace-slice", "C09", (L + "trace.rs", """            Some(&code) => {
                ret.push(match code {
                    Code::Literal(_) => Trace::ActuallyLiteral,
                    Code::Reference(r) => Trace::Actually(r),
                });
                scanner.feedback(code);
            }
            None => panic!("the guesser guessed more than there actually are?"),
        }
""", """            Some(&Code::Literal(byte)) => {
                ret.push(Trace::ActuallyLiteral);
                scanner.feedback(Code::Literal(byte));
            }
            Some(&Code::Reference(r)) => {
                ret.push(Trace::Actually(r));
                scanner.feedback(Code::Reference(r));
            }
            None => panic!("the guesser guessed more than there actually are?"),
        }
"""))
r("trace-restore", "C09", (L + "trace.rs", """            match hint {
                Trace::ActuallyLiteral | Trace::Actually(_) => {
                    // the guesser was wrong, and we moved in a way it doesn't understand; ignore it
                    break;
                }
                Trace::Correct => {}
            }
""", """            if hint != Trace::Correct {
                // the guesser was wrong, and we moved in a way it doesn't understand; ignore it
                break;
            }
"""))
r("trace-prefix", "C09", (L + "trace.rs", """    for end in 0..left.len() {
        match right.peek() {
            Some(val) if **val == left[end] => {}
            None | Some(_) => return &left[..end],
        }

        right.next();
    }

    left
""", """    let mut end = 0;
    while end < left.len() {
        match right.peek() {
            Some(val) if **val == left[end] => {}
            None | Some(_) => break,
        }

        right.next();
        end += 1;
    }

    &left[..end]
"""))
r("tech-feedback", "C09 C12 C13", (L + "technique.rs", """        let limit = match self.technique.config.wams.insert_only_below_length {
            Some(limit) => limit,
            None => return,
        };

        let r = match code {
            Code::Reference(r) => r,
            Code::Literal(_) => return,
        };

        if r.run() <= limit {
            return;
        }

        self.obscured.push((old_pos, r.run()))
""", """        if let Some(limit) = self.technique.config.wams.insert_only_below_length {
            if let Code::Reference(r) = code {
                if r.run() > limit {
                    self.obscured.push((old_pos, r.run()));
                }
            }
        }
"""))
r("tech-limit", "C12 C13 C14", (L + "technique.rs", """        let candidates = self.technique.all_refs.at(pos, &self.obscured);
        (
            current_literal,
            candidates.and_then(|it| {
                self.technique.config.picker.picker(
                    it.take(limit),
                    self.technique.config.wams.quit_search_above_length,
                )
            }),
        )
""", """        let best = match self.technique.all_refs.at(pos, &self.obscured) {
            Some(candidates) => self.technique.config.picker.picker(
                candidates.take(limit),
                self.technique.config.wams.quit_search_above_length,
            ),
            None => None,
        };

        (current_literal, best)
"""))
r("refs-key", "C11 C12", (L + "all_refs.rs", """        if data_pos + 2 < self.data_len() {
            Some(Key {
                b0: self.get(data_pos),
                b1: self.get(data_pos + 1),
                b2: self.get(data_pos + 2),
            })
        } else {
            None
        }
""", """        if data_pos + 3 > self.data_len() {
            return None;
        }

        Some(Key {
            b0: self.get(data_pos),
            b1: self.get(data_pos + 1),
            b2: self.get(data_pos + 2),
        })
"""), (L + "all_refs.rs", """        let key = match self.key(pos) {
            Some(key) => key,
            None => return None,
        };
""", """        let key = self.key(pos)?;
"""))
r("refs-run", "C11 C12", (L + "all_refs.rs", """        for cur in 3..dist.min(upcoming_data_len) {
            if upcoming_data[usize::try_from(cur).expect("todo: usize")]
                != self.get_at_dist(pos, dist - cur)
            {
                return cur;
            }
        }

        for cur in dist..upcoming_data_len {
            if upcoming_data[usize::try_from(cur % dist).expect("todo: usize")]
                != upcoming_data[usize::try_from(cur).expect("todo: usize")]
            {
                return cur;
            }
        }

        upcoming_data_len
""", """        let mut cur = 3;
        while cur < upcoming_data_len {
            let earlier = if cur < dist {
                self.get_at_dist(pos, dist - cur)
            } else {
                upcoming_data[usize::from(cur % dist)]
            };

            if upcoming_data[usize::from(cur)] != earlier {
                break;
            }

            cur += 1;
        }

        cur
"""))
r("refs-filters", "C11 C12", (L + "all_refs.rs", """            .filter(move |&off| pos - off <= 32_768)
            .filter(move |&off| {
                self.get(off) == key.b0
                    && self.get(off + 1) == key.b1
                    && self.get(off + 2) == key.b2
            })
""", """            .filter(move |&off| pos - off <= 32_768 && self.key(off) == Some(key))
"""))
r("back-loop", "C12 C11", (L + "back_map.rs", """            let hash = Key::from(keys).sixteen_hash_16();
            let hash_entry = &mut table.hash_to_pos[usize::from(hash)];
            let prev_pos = *hash_entry;
            table.pos_to_pos[pos] = prev_pos;
            *hash_entry = pos;
""", """            let hash = usize::from(Key::from(keys).sixteen_hash_16());
            table.pos_to_pos[pos] = table.hash_to_pos[hash];
            table.hash_to_pos[hash] = pos;
"""), (L + "back_map.rs", """        let current = match self.next {
            Some(val) => val,
            None => return None,
        };

        match self.pos_to_pos[current] {
            0 => self.next = None,
            next => self.next = Some(next),
        };

        Some(current)
""", """        let current = self.next?;

        self.next = match self.pos_to_pos[current] {
            0 => None,
            next => Some(next),
        };

        Some(current)
"""))
r("obscure-any", "C12 C11", (L + "obscure.rs", """    for &(start, len) in haystack {
        if needle > start && needle < (start + len as Int) {
            #[cfg(feature = "tracing")]
            println!("S{},{} obscures {}", start, len, needle);
            return true;
        }
    }

    false
""", """    haystack
        .iter()
        .any(|&(start, len)| start < needle && needle < start + Int::from(len))
"""))
r("iters-while", "C13", (L + "iters.rs", """    if max_score >= *cap {
        return Some(max);
    }

    for candidate in it {
        let candidate_score = func(&candidate);
        if candidate_score > max_score {
            max = candidate;
            max_score = candidate_score;

            if max_score >= *cap {
                break;
            }
        }
    }

    Some(max)
""", """    while max_score < *cap {
        let candidate = match it.next() {
            Some(val) => val,
            None => break,
        };

        let candidate_score = func(&candidate);
        if candidate_score > max_score {
            max = candidate;
            max_score = candidate_score;
        }
    }

    Some(max)
"""))
r("iters-early", "C13", (L + "iters.rs", """    let mut max = match it.next() {
        Some(val) => val,
        None => return None,
    };
""", """    let mut max = it.next()?;
"""), (L + "iters.rs", """            if max_score >= *cap {
                break;
            }
        }
    }

    Some(max)
""", """            if max_score >= *cap {
                return Some(max);
            }
        }
    }

    Some(max)
"""))
r("picker-inline", "C13", (L + "picker.rs", "    longest(candidates, cap).filter(|r| r.run() > 3 || r.dist <= 4096)\n", """    match longest(candidates, cap) {
        Some(r) if r.run() == 3 && r.dist > 4096 => None,
        other => other,
    }
"""))
r("look-greedy", "C14", (L + "lookahead.rs", """    vec![match looker.best_candidate(pos) {
        (_, Some(r)) => Code::Reference(r),
        (b, None) => Code::Literal(b),
    }]
""", """    let (literal, best) = looker.best_candidate(pos);
    let code = match best {
        Some(r) => Code::Reference(r),
        None => Code::Literal(literal),
    };
    vec![code]
"""), (L + "lookahead.rs", """            (_, None) | (_, Some(_)) => {
                ret.push(Code::Reference(curr_ref));
                break;
            }
        };
    }

    ret
""", """            (_, None) | (_, Some(_)) => break,
        };
    }

    ret.push(Code::Reference(curr_ref));
    ret
"""))
r("look-three", "C14", (L + "lookahead.rs", """    match second_best {
        Some(second_run) => match third_best {
            Some(third_run) if third_run.run() > second_run.run() => third_result(third_run),
            Some(_) | None => vec![Code::Literal(first_literal), second_run.into()],
        },
        None => match third_best {
            Some(third_run) => third_result(third_run),
            None => vec![first_best.into()],
        },
    }
""", """    match (second_best, third_best) {
        (Some(second_run), Some(third_run)) if third_run.run() > second_run.run() => {
            third_result(third_run)
        }
        (Some(second_run), _) => vec![Code::Literal(first_literal), second_run.into()],
        (None, Some(third_run)) => third_result(third_run),
        (None, None) => vec![first_best.into()],
    }
"""))
r("zero-block", "C17", (Z + "zero.rs", """        if reader.peek().is_some() {
            // uncompressed block, not end of file
            writer.write_all(&[0])?;
        } else {
            // uncompressed block, end of file
            writer.write_all(&[0b0000_0001])?;
        }

        let len = buf.len() as u16;
        writer.write_u16::<LE>(len)?;
        writer.write_u16::<LE>(len ^ 0xffff)?;
        writer.write_all(&buf)?;
    }
""", """        let last = reader.peek().is_none();
        write_block(&mut writer, last, &buf)?;
    }
"""), (Z + "zero.rs", "pub fn run<R: Read>", """fn write_block<W: Write>(writer: &mut W, last: bool, buf: &[u8]) -> Result<(), Error> {
    // uncompressed block
    writer.write_all(&[u8::from(last)])?;

    let len = buf.len() as u16;
    writer.write_u16::<LE>(len)?;
    writer.write_u16::<LE>(!len)?;
    writer.write_all(buf)?;
    Ok(())
}

pub fn run<R: Read>"""))
r("zero-while", "C17", (Z + "zero.rs", """    for _ in 0..RSYNC_MIN {
        match from.next() {
            Some(byte) => {
                let byte = byte?;
                sum = sum.wrapping_add(usize::from(byte));
                buf.push(byte);
            }
            None => return Ok(buf),
        }
    }
""", """    while buf.len() < RSYNC_MIN {
        let byte = match from.next() {
            Some(byte) => byte?,
            None => return Ok(buf),
        };
        sum = sum.wrapping_add(usize::from(byte));
        buf.push(byte);
    }
"""))
r("zero-flag", "C17", (Z + "zero.rs", """        if reader.peek().is_some() {
            // uncompressed block, not end of file
            writer.write_all(&[0])?;
        } else {
            // uncompressed block, end of file
            writer.write_all(&[0b0000_0001])?;
        }
""", """        // an uncompressed block, the last one iff nothing follows
        let flag: u8 = if reader.peek().is_none() { 1 } else { 0 };
        writer.write_all(&[flag])?;
"""), (Z + "zero.rs", """        data_len = data_len.wrapping_add(buf.len() as u32);
        data_csum.update(&buf);

""", ""), (Z + "zero.rs", """        writer.write_all(&buf)?;
    }

    writer.write_u32""", """        writer.write_all(&buf)?;

        data_csum.update(&buf);
        data_len = data_len.wrapping_add(buf.len() as u32);
    }

    writer.write_u32"""))
r("filter-match", "C18", (L + "filter.rs", """        let len = self.inner.read(buf)?;
        self.hash.update(&buf[0..len]);
        Ok(len)
""", """        let len = match self.inner.read(buf) {
            Ok(len) => len,
            Err(e) => return Err(e),
        };
        let seen = &buf[..len];
        self.hash.update(seen);
        Ok(len)
"""), (L + "filter.rs", """        let len = self.inner.write(buf)?;
        self.hash.update(&buf[0..len]);
        Ok(len)
""", """        let written = self.inner.write(buf)?;
        self.hash.update(&buf[..written]);
        Ok(written)
"""))
r("cat-while", "C02", (Z + "cat.rs", """    for block in librezip::parse_deflate(&mut reader).into_iter() {
        librezip::decompressed_block(&mut stdout, &mut dictionary, &block?)?;
    }
""", """    let mut blocks = librezip::parse_deflate(&mut reader);
    while let Some(block) = blocks.next() {
        let block = block?;
        librezip::decompressed_block(&mut stdout, &mut dictionary, &block)?;
    }
"""))
r("lib-run", "C14 C09 C11 C01", (L + "lib.rs", "    pub fn run(&self) -> u16 {", "    #[inline]\n    pub fn run(&self) -> u16 {"))

# ---- second batch
r("enc-noguard", "C01", (L + "serialise.rs", """        if bits > 0 {
            into.write_bits_val(bits, val)?;
        }
    }

    Ok(())
""", """        into.write_bits_val(bits, val)?;
    }

    Ok(())
"""))
r("enc-early", "C01", (L + "serialise.rs", """    if let Some((code, bits, val)) = huffman::encode_distance(dist) {
        let distance_tree = tree
            .as_ref()
            .ok_or_else(|| anyhow!("reference but not distance tree"))?;

        into.write_vec(distance_tree[usize::from(code)].as_ref().unwrap())?;

        if bits > 0 {
            into.write_bits_val(bits, val)?;
        }
    }

    Ok(())
""", """    let (code, bits, val) = match huffman::encode_distance(dist) {
        Some(parts) => parts,
        None => return Ok(()),
    };

    let distance_tree = match tree {
        Some(tree) => tree,
        None => return Err(anyhow!("reference but not distance tree")),
    };

    into.write_vec(distance_tree[usize::from(code)].as_ref().unwrap())?;

    if bits > 0 {
        into.write_bits_val(bits, val)?;
    }

    Ok(())
"""))
r("enc-run-let", "C01", (L + "serialise.rs", """    into.write_vec(
        length_tree[huffman::encode_run_length(run) as usize]
            .as_ref()
            .unwrap(),
    )?;

    if let Some((bits, val)) = huffman::extra_run_length(run) {
        into.write_bits_val(bits, val)?;
    }

    Ok(())
""", """    let sym = usize::from(huffman::encode_run_length(run));
    let word = length_tree[sym].as_ref().expect("length without a code");
    into.write_vec(word)?;

    match huffman::extra_run_length(run) {
        Some((bits, val)) => into.write_bits_val(bits, val),
        None => Ok(()),
    }
"""))
r("ser-index", "C01", (L + "serialise.rs", """    for code in codes {
        match *code {
            Literal(byte) => {
                into.write_vec(
""", """    for i in 0..codes.len() {
        match codes[i] {
            Literal(byte) => {
                into.write_vec(
"""))
r("ser-copied", "C02", (L + "serialise.rs", """    for code in codes {
        match *code {
            Literal(byte) => {
                dictionary.push(byte);
                into.write_all(&[byte])?
            }
            Reference(r) => {
                dictionary.copy(r.dist, r.run(), &mut into)?;
            }
        }
    }
""", """    for &code in codes {
        match code {
            Reference(r) => dictionary.copy(r.dist, r.run(), &mut into)?,
            Literal(byte) => {
                into.write_all(&[byte])?;
                dictionary.push(byte);
            }
        }
    }
"""))
r("ser-writeorder", "C02", (L + "serialise.rs", """            dictionary.extend(data);
            into.write_all(data)
                .with_context(|| anyhow!("storing uncompressed block"))?;
            Ok(())
""", """            into.write_all(data)
                .with_context(|| anyhow!("storing uncompressed block"))?;
            dictionary.extend(data);
            Ok(())
"""))
r("circles-extend", "C08 C02", (L + "circles.rs", """        for byte in val {
            self.push(*byte);
        }
""", """        for i in 0..val.len() {
            self.push(val[i]);
        }
"""))
r("circles-extend2", "C08 C02", (L + "circles.rs", """        for byte in val {
            self.push(*byte);
        }
""", """        for &byte in val.iter() {
            self.push(byte);
        }
"""))
r("circles-vec", "C08", (L + "circles.rs", """        for pos in (1..=self.valid_cap).rev() {
            ret.push(self.get_at_dist(pos));
        }

        ret
""", """        let mut pos = self.valid_cap;
        while pos > 0 {
            ret.push(self.get_at_dist(pos));
            pos -= 1;
        }
        ret
"""))
r("circles-start", "C08 C02", (L + "circles.rs", """        let mut read_from = (self
            .idx
            .wrapping_sub(usize::from(dist))
            .wrapping_add(self.data.len()))
            % self.data.len();

        for _ in 0..len {
            let b = self.data[read_from];
            read_from = (read_from + 1) % self.data.len();
            into.write_all(&[b])?;
            self.push(b);
        }
""", """        let mut read_from = (self.idx + self.data.len() - usize::from(dist)) % self.data.len();

        for _ in 0..len {
            let b = self.data[read_from];
            into.write_all(&[b])?;
            self.push(b);
            read_from = (read_from + 1) % self.data.len();
        }
"""))
r("bit-push", "C07 C01", (L + "bit.rs", """        if word >= self.bytes.len() {
            assert_eq!(word, self.bytes.len());
            self.bytes.push(0);
        }

        if val {
            let word = &mut self.bytes[word];
            word.bitor_assign(1 << (bit));
        }
""", """        if bit == 0 {
            assert_eq!(word, self.bytes.len());
            self.bytes.push(0);
        }

        if val {
            self.bytes[word] |= 1 << bit;
        }
"""))
r("bit-get", "C07 C01", (L + "bit.rs", """        self.bytes[word] & (1 << bit) == (1 << bit)
""", """        (self.bytes[word] >> bit) & 1 == 1
"""))
r("bit-popbyte", "C07 C01", (L + "bit.rs", """        for pos in 0..8 {
            if self.pop().unwrap() {
                ret |= 1 << (7 - pos);
            }
        }
""", """        for pos in (0..8).rev() {
            if self.pop().unwrap() {
                ret |= 1 << pos;
            }
        }
"""))
r("bit-readpart", "C07 C01 C03", (L + "bit.rs", """            if self.read_bit()? {
                res |= 1 << i;
            }
""", """            res |= u16::from(self.read_bit()?) << i;
"""))
r("bit-writeval", "C07 C01", (L + "bit.rs", """            self.write_bit((val & (1 << i)) != 0)?;
""", """            let bit = (val >> i) & 1;
            self.write_bit(bit == 1)?;
"""))
r("bit-aligned", "C07 C01", (L + "bit.rs", """        self.inner.write_all(&[
            u8::try_from(val & 0xFF).expect("mask"),
            u8::try_from(val >> 8).expect("bitshift"),
        ])?;
        Ok(())
""", """        let low = (val & 0xFF) as u8;
        let high = (val >> 8) as u8;
        self.inner.write_all(&[low, high])?;
        Ok(())
"""))
r("bit-lenpre", "C07 C01", (L + "bit.rs", """        self.align()?;
        ensure!(
            data.len() <= usize::from(std::u16::MAX),
            "data too long to store"
        );

        self.write_aligned_u16(u16::try_from(data.len()).expect("todo: usize"))?;
        self.write_aligned_u16(u16::try_from(data.len()).expect("todo: usize") ^ 0xFFFF)?;
""", """        self.align()?;
        ensure!(
            data.len() <= usize::from(std::u16::MAX),
            "data too long to store"
        );

        let len = data.len() as u16;
        self.write_aligned_u16(len)?;
        self.write_aligned_u16(!len)?;
"""))
r("bit-position", "C07 C03", (L + "bit.rs", """        while 0 != self.position() {
            ensure!(!self.read_bit()?, "padding bits should always be empty");
        }
        Ok(())
""", """        while self.remaining_bits > 0 {
            let bit = self.read_bit()?;
            ensure!(!bit, "padding bits should always be empty");
        }
        Ok(())
"""))
r("bit-alignwrite", "C07 C01", (L + "bit.rs", """        while !self.current.is_empty() {
            self.write_bit(false)?;
        }
        Ok(())
""", """        loop {
            if self.current.is_empty() {
                return Ok(());
            }
            self.write_bit(false)?;
        }
"""))
r("bit-iter", "C07 C01", (L + "bit.rs", """        if self.pos >= self.inner.len() {
            assert_eq!(self.pos, self.inner.len());
            return None;
        }

        let ret = self.inner.get(self.pos);

        self.pos += 1;

        Some(ret)
""", """        if self.pos < self.inner.len() {
            let ret = self.inner.get(self.pos);
            self.pos += 1;
            Some(ret)
        } else {
            None
        }
"""))
r("huff-lens", "C05 C01", (L + "huffman.rs", """    let mut code_lens = vec![];
    for _ in 0..code_lens_len {
        code_lens.push(0u8);
    }
""", """    let mut code_lens = vec![0u8; code_lens_len];
"""))
r("huff-count", "C05 C01", (L + "huffman.rs", """    for x in dist_code_len {
        if *x == 1 {
            one_count += 1;
        } else if *x > 1 {
            other_positive_count += 1;
        }
    }
""", """    for x in dist_code_len {
        match *x {
            0 => {}
            1 => one_count += 1,
            _ => other_positive_count += 1,
        }
    }
"""))
r("huff-symmatch", "C05 C01", (L + "huffman.rs", """            if sym <= 15 {
                code_lens[i] = sym as u8;
                run_val = Some(sym as u8);
                i += 1;
            } else if sym == 16 {
                ensure!(run_val.is_some(), "no value to copy");
                run_len = reader.read_part(2)? + 3;
            } else if sym == 17 {
                run_val = Some(0);
                run_len = reader.read_part(3)? + 3;
            } else if sym == 18 {
                run_val = Some(0);
                run_len = reader.read_part(7)? + 11;
            } else {
                panic!("symbol out of range");
            }
""", """            match sym {
                0..=15 => {
                    code_lens[i] = sym as u8;
                    run_val = Some(sym as u8);
                    i += 1;
                }
                16 => {
                    ensure!(run_val.is_some(), "no value to copy");
                    run_len = reader.read_part(2)? + 3;
                }
                17 => {
                    run_len = reader.read_part(3)? + 3;
                    run_val = Some(0);
                }
                18 => {
                    run_len = reader.read_part(7)? + 11;
                    run_val = Some(0);
                }
                _ => panic!("symbol out of range"),
            }
"""))
r("huff-encdist", "C01", (L + "huffman.rs", """        if distance <= base + half {
            Some((code, extra_bits, delta % half))
        } else {
            Some((code + 1, extra_bits, delta % half))
        }
""", """        let upper = distance > base + half;
        Some((code + upper as u8, extra_bits, delta % half))
"""))
r("huff-decrun", "C03 C01", (L + "huffman.rs", """    if sym <= 264 {
        return Ok((sym - 254) as u16);
    }
""", """    if sym == 285 {
        return Ok(258);
    }

    if sym <= 264 {
        return Ok(sym - 254);
    }
"""), (L + "huffman.rs", """    if sym == 285 {
        return Ok(258);
    }

    // sym is 286 or 287
""", """    // sym is 286 or 287
"""))
r("parse-sym", "C03 C01", (L + "parse.rs", """        if sym == 256 {
            // end of block

            break;
        }

        if sym < 256 {
            // literal byte

            ret.push(Code::Literal(sym as u8));
            continue;
        }

        // length and distance encoding
        let run""", """        if sym < 256 {
            ret.push(Code::Literal(sym as u8));
            continue;
        }

        if sym == 256 {
            return Ok(ret);
        }

        // length and distance encoding
        let run"""), (L + "parse.rs", """        ret.push(Code::Reference(Ref::new(dist, run)));
    }

    Ok(ret)
""", """        ret.push(Code::Reference(Ref::new(dist, run)));
    }
"""))
r("parse-ref", "C03 C01", (L + "parse.rs", """        let dist_sym = match distance {
            Some(dist_code) => dist_code.decode_symbol(reader)?,
            None => bail!("length symbol encountered but no table"),
        };

        let dist = huffman::decode_distance(reader, dist_sym)?;

        ensure!(dist >= 1 && dist <= 32_786, "invalid distance");

        ret.push(Code::Reference(Ref::new(dist, run)));
    }

    Ok(ret)
}
""", """        ret.push(Code::Reference(Ref::new(
            read_distance(reader, distance)?,
            run,
        )));
    }

    Ok(ret)
}

fn read_distance<R: Read>(
    reader: &mut BitReader<R>,
    distance: Option<&CodeTree>,
) -> Result<u16, Error> {
    let dist_sym = match distance {
        Some(dist_code) => dist_code.decode_symbol(reader)?,
        None => bail!("length symbol encountered but no table"),
    };

    let dist = huffman::decode_distance(reader, dist_sym)?;
    ensure!(dist >= 1 && dist <= 32_768, "invalid distance");
    Ok(dist)
}
"""))
r("strace-while", "C10", (L + "serialise_trace.rs", """            let count = first - 32_768;
            for _ in 0..count {
                ret.push(Trace::Correct);
            }
""", """            let mut count = first - 32_768;
            while count > 0 {
                ret.push(Trace::Correct);
                count -= 1;
            }
"""))
r("strace-match", "C10", (L + "serialise_trace.rs", """        if 0 == first {
            ret.push(Trace::ActuallyLiteral);
        } else if first <= 32_768 {
            let dist = first;
            let run_minus_3 = data.read_u8()?;
            ret.push(Trace::Actually(Ref::new(dist, u16::from(run_minus_3) + 3)));
        } else {
            let count = first - 32_768;
            for _ in 0..count {
                ret.push(Trace::Correct);
            }
        }
""", """        match first {
            0 => ret.push(Trace::ActuallyLiteral),
            1..=32_768 => {
                let run = u16::from(data.read_u8()?) + 3;
                ret.push(Trace::Actually(Ref::new(first, run)));
            }
            _ => {
                for _ in 32_768..first {
                    ret.push(Trace::Correct);
                }
            }
        }
"""))
r("trace-else", "C09", (L + "trace.rs", """        match codes.next() {
            Some(&code) => {
                ret.push(match code {
                    Code::Literal(_) => Trace::ActuallyLiteral,
                    Code::Reference(r) => Trace::Actually(r),
                });
                scanner.feedback(code);
            }
            None => panic!("the guesser guessed more than there actually are?"),
        }
""", """        let code = *codes
            .next()
            .expect("the guesser guessed more than there actually are?");
        scanner.feedback(code);
        ret.push(match code {
            Code::Literal(_) => Trace::ActuallyLiteral,
            Code::Reference(r) => Trace::Actually(r),
        });
"""))
r("trace-if", "C09", (L + "trace.rs", """            match hint {
                Trace::ActuallyLiteral | Trace::Actually(_) => {
                    // the guesser was wrong, and we moved in a way it doesn't understand; ignore it
                    break;
                }
                Trace::Correct => {}
            }
""", """            if hint != Trace::Correct {
                // the guesser was wrong, and we moved in a way it doesn't understand; ignore it
                break;
            }
"""))
r("tech-feed", "C09 C12", (L + "technique.rs", """        let limit = match self.technique.config.wams.insert_only_below_length {
            Some(limit) => limit,
            None => return,
        };

        let r = match code {
            Code::Reference(r) => r,
            Code::Literal(_) => return,
        };

        if r.run() <= limit {
            return;
        }

        self.obscured.push((old_pos, r.run()))
""", """        if let Code::Reference(r) = code {
            if let Some(limit) = self.technique.config.wams.insert_only_below_length {
                if r.run() > limit {
                    self.obscured.push((old_pos, r.run()));
                }
            }
        }
"""))
r("tech-cand", "C12 C13 C14", (L + "technique.rs", """        let candidates = self.technique.all_refs.at(pos, &self.obscured);
        (
            current_literal,
            candidates.and_then(|it| {
                self.technique.config.picker.picker(
                    it.take(limit),
                    self.technique.config.wams.quit_search_above_length,
                )
            }),
        )
""", """        let config = &self.technique.config;
        let best = match self.technique.all_refs.at(pos, &self.obscured) {
            Some(it) => config
                .picker
                .picker(it.take(limit), config.wams.quit_search_above_length),
            None => None,
        };

        (current_literal, best)
"""))
r("refs-get", "C11 C12", (L + "all_refs.rs", """        if pos < self.preroll.len() {
            self.preroll[pos]
        } else {
            self.data[pos - self.preroll.len()]
        }
""", """        let preroll = self.preroll.len();
        if pos >= preroll {
            self.data[pos - preroll]
        } else {
            self.preroll[pos]
        }
"""))
r("refs-key2", "C11 C12", (L + "all_refs.rs", """        if data_pos + 2 < self.data_len() {
            Some(Key {
                b0: self.get(data_pos),
                b1: self.get(data_pos + 1),
                b2: self.get(data_pos + 2),
            })
        } else {
            None
        }
""", """        if data_pos + 2 >= self.data_len() {
            return None;
        }

        let b0 = self.get(data_pos);
        let b1 = self.get(data_pos + 1);
        let b2 = self.get(data_pos + 2);
        Some(Key { b0, b1, b2 })
"""))
r("back-next", "C12 C11", (L + "back_map.rs", """        let current = match self.next {
            Some(val) => val,
            None => return None,
        };

        match self.pos_to_pos[current] {
            0 => self.next = None,
            next => self.next = Some(next),
        };

        Some(current)
""", """        let current = self.next?;
        let next = self.pos_to_pos[current];
        self.next = if next == 0 { None } else { Some(next) };
        Some(current)
"""))
r("obscure-let", "C12 C11", (L + "obscure.rs", """        if needle > start && needle < (start + len as Int) {
""", """        let end = start + len as Int;
        if start < needle && needle < end {
"""))
r("picker-match", "C13", (L + "picker.rs", """        match *self {
            Picker::Longest => longest(candidates, cap),
            Picker::DropFarThrees => drop_far_threes(candidates, cap),
        }
""", """        match self {
            Picker::DropFarThrees => drop_far_threes(candidates, cap),
            Picker::Longest => longest(candidates, cap),
        }
"""))
r("look-gzip", "C14 C09", (L + "lookahead.rs", """    loop {
        pos += 1;
        match looker.best_candidate_better_than(pos, Some(curr_ref.run())) {
            (b, Some(new)) if new.run() > curr_ref.run() => {
                ret.push(Code::Literal(curr_lit));
                curr_lit = b;
                curr_ref = new;
            }
            (_, None) | (_, Some(_)) => {
                ret.push(Code::Reference(curr_ref));
                break;
            }
        };
    }

    ret
""", """    loop {
        pos += 1;
        let (b, better) = looker.best_candidate_better_than(pos, Some(curr_ref.run()));
        match better {
            Some(new) if new.run() > curr_ref.run() => {
                ret.push(Code::Literal(curr_lit));
                curr_lit = b;
                curr_ref = new;
            }
            _ => {
                ret.push(Code::Reference(curr_ref));
                return ret;
            }
        }
    }
"""))
r("look-third", "C14", (L + "lookahead.rs", """    match second_best {
        Some(second_run) => match third_best {
            Some(third_run) if third_run.run() > second_run.run() => third_result(third_run),
            Some(_) | None => vec![Code::Literal(first_literal), second_run.into()],
        },
        None => match third_best {
            Some(third_run) => third_result(third_run),
            None => vec![first_best.into()],
        },
    }
""", """    if let Some(second_run) = second_best {
        return match third_best {
            Some(third_run) if third_run.run() > second_run.run() => third_result(third_run),
            _ => vec![Code::Literal(first_literal), second_run.into()],
        };
    }

    match third_best {
        Some(third_run) => third_result(third_run),
        None => vec![first_best.into()],
    }
"""))
r("gzip-order", "C15", (L + "gzip.rs", """    ensure!(0x1f == header[0] && 0x8b == header[1], "invalid magic");
    ensure!(0x08 == header[2], "unsupported compression method");
""", """    ensure!(header[2] == 0x08, "unsupported compression method");
    ensure!(header[0] == 0x1f, "invalid magic");
    ensure!(header[1] == 0x8b, "invalid magic");
"""))
r("gzip-null", "C15", (L + "gzip.rs", """    loop {
        let mut buf = [0u8; 1];
        from.read_exact(&mut buf)?;
        into.push(buf[0]);
        if 0 == buf[0] {
            return Ok(());
        }
    }
""", """    let mut buf = [1u8; 1];
    while buf[0] != 0 {
        from.read_exact(&mut buf)?;
        into.push(buf[0]);
    }
    Ok(())
"""))
r("gzip-extra", "C15", (L + "gzip.rs", """        let extra_field_length = ((buf[1] as usize) << 8) | (buf[0] as usize);
""", """        let extra_field_length = usize::from(buf[0]) + 256 * usize::from(buf[1]);
"""))
r("gzip-two", "C15", (L + "gzip.rs", """    if has_bit(flags, 3) {
        // fname
        read_null_terminated(&mut from, &mut whole_thing)?;
    }

    if has_bit(flags, 4) {
        // comment
        read_null_terminated(&mut from, &mut whole_thing)?;
    }
""", """    for bit in 3..5 {
        // fname, comment
        if has_bit(flags, bit) {
            read_null_terminated(&mut from, &mut whole_thing)?;
        }
    }
"""))
r("zero-lens", "C17", (Z + "zero.rs", """        let len = buf.len() as u16;
        writer.write_u16::<LE>(len)?;
        writer.write_u16::<LE>(len ^ 0xffff)?;
        writer.write_all(&buf)?;
""", """        let len = buf.len() as u16;
        let complement = !len;
        writer.write_u16::<LE>(len)?;
        writer.write_u16::<LE>(complement)?;
        writer.write_all(&buf)?;
"""))
r("zero-sum", "C17", (Z + "zero.rs", """                sum = sum.wrapping_add(usize::from(byte));
                sum = sum.wrapping_sub(usize::from(buf[pos]));
                buf.push(byte);
            }
            None => break,
        }
""", """                sum = sum
                    .wrapping_add(usize::from(byte))
                    .wrapping_sub(usize::from(buf[pos]));
                buf.push(byte);
            }
            None => return Ok(buf),
        }
"""))
r("zero-final", "C17", (Z + "zero.rs", """        if reader.peek().is_some() {
            // uncompressed block, not end of file
            writer.write_all(&[0])?;
        } else {
            // uncompressed block, end of file
            writer.write_all(&[0b0000_0001])?;
        }
""", """        // an uncompressed block; the low bit says that it is the last
        let last = u8::from(reader.peek().is_none());
        writer.write_all(&[last])?;
"""))
r("filter-let", "C18", (L + "filter.rs", """        let len = self.inner.read(buf)?;
        self.hash.update(&buf[0..len]);
        Ok(len)
""", """        let len = self.inner.read(buf)?;
        let seen = &buf[..len];
        self.hash.update(seen);
        Ok(seen.len())
"""))
r("tree-build", "C06 C01", (L + "code_tree.rs", """        match nodes.into_iter().next().unwrap() {
            Node::Internal(left, right) => Ok(CodeTree {
                left: *left,
                right: *right,
            }),
            Node::Leaf(_) => panic!("root must be a node"),
        }
""", """        match nodes.pop() {
            Some(Node::Internal(left, right)) => Ok(CodeTree {
                left: *left,
                right: *right,
            }),
            _ => panic!("root must be a node"),
        }
"""))
r("tree-invert", "C06 C01", (L + "code_tree.rs", """        store_code(&mut into, plus_bit(&BitVec::new(), false), &self.left);
        store_code(&mut into, plus_bit(&BitVec::new(), true), &self.right);
""", """        let empty = BitVec::new();
        store_code(&mut into, plus_bit(&empty, true), &self.right);
        store_code(&mut into, plus_bit(&empty, false), &self.left);
"""))
r("tree-sym", "C06 C01", (L + "code_tree.rs", """    match *if reader.read_bit()? { right } else { left } {
        Leaf(sym) => Ok(sym),
        Internal(ref new_left, ref new_right) => decode_symbol_impl(reader, new_left, new_right),
    }
""", """    let node = if reader.read_bit()? { right } else { left };
    match node {
        Leaf(sym) => Ok(*sym),
        Internal(new_left, new_right) => decode_symbol_impl(reader, new_left, new_right),
    }
"""))

# third batch
r("refs-same", "C11 C12 C16", (L + "all_refs.rs", """            .filter(move |&off| {
                self.get(off) == key.b0
                    && self.get(off + 1) == key.b1
                    && self.get(off + 2) == key.b2
            })
""", """            .filter(move |&off| self.has_key(off, key))
"""), (L + "all_refs.rs", """    fn get_at_dist(&self, data_pos""", """    fn has_key(&self, off: usize, key: Key) -> bool {
        key.b0 == self.get(off) && key.b1 == self.get(off + 1) && key.b2 == self.get(off + 2)
    }

    fn get_at_dist(&self, data_pos"""))
r("refs-position", "C11 C12 C14", (L + "all_refs.rs", """        for cur in dist..upcoming_data_len {
            if upcoming_data[usize::try_from(cur % dist).expect("todo: usize")]
                != upcoming_data[usize::try_from(cur).expect("todo: usize")]
            {
                return cur;
            }
        }

        upcoming_data_len
""", """        (dist..upcoming_data_len)
            .find(|&cur| upcoming_data[usize::from(cur % dist)] != upcoming_data[usize::from(cur)])
            .unwrap_or(upcoming_data_len)
"""))
r("refs-map2", "C11 C12", (L + "all_refs.rs", """            .map(move |off| {
                let dist = u16::try_from(pos - off).expect("logically sound");
                let run = self.possible_run_length_at(pos, dist);
                Ref::new(dist, run)
            }),
""", """            .map(move |off| u16::try_from(pos - off).expect("logically sound"))
            .map(move |dist| Ref::new(dist, self.possible_run_length_at(pos, dist))),
"""))
r("refs-early", "C11 C12", (L + "all_refs.rs", """        if data_pos + 2 < self.data_len() {
            Some(Key {
                b0: self.get(data_pos),
                b1: self.get(data_pos + 1),
                b2: self.get(data_pos + 2),
            })
        } else {
            None
        }
""", """        let last = data_pos + 2;
        if last >= self.data_len() {
            return None;
        }
        Some(Key::from((self.get(data_pos), self.get(data_pos + 1), self.get(last))))
"""))
r("back-replace", "C12 C11", (L + "back_map.rs", """            let hash_entry = &mut table.hash_to_pos[usize::from(hash)];
            let prev_pos = *hash_entry;
            table.pos_to_pos[pos] = prev_pos;
            *hash_entry = pos;
""", """            let slot = usize::from(hash);
            table.pos_to_pos[pos] = table.hash_to_pos[slot];
            table.hash_to_pos[slot] = pos;
"""))
r("back-get", "C12 C11", (L + "back_map.rs", """        let pos = self.hash_to_pos[usize::from(key.sixteen_hash_16())];

        Chain {
            next: Some(pos),
            pos_to_pos: &self.pos_to_pos,
        }
""", """        let slot = usize::from(key.sixteen_hash_16());
        Chain {
            pos_to_pos: &self.pos_to_pos,
            next: Some(self.hash_to_pos[slot]),
        }
"""))
r("circles-wrap", "C08 C02 C16", (L + "circles.rs", """        self.idx = (self.idx + 1) % self.data.len();

        if""", """        self.idx += 1;
        if self.idx == self.data.len() {
            self.idx = 0;
        }

        if"""))
r("circles-bail", "C08 C02 C16", (L + "circles.rs", """        ensure!(
            dist > 0 && dist <= self.valid_cap,
            "dist must fit: {} / {}",
            dist,
            self.valid_cap
        );
""", """        if dist == 0 || dist > self.valid_cap {
            anyhow::bail!("dist must fit: {} / {}", dist, self.valid_cap);
        }
"""))
r("circles-dist", "C08", (L + "circles.rs", """        let target = self.idx as isize - (dist as isize);
        let idx = if target >= 0 {
            target
        } else {
            target + self.data.len() as isize
        } as usize;

        self.data[idx]
""", """        let dist = usize::from(dist);
        if dist <= self.idx {
            self.data[self.idx - dist]
        } else {
            self.data[self.idx + self.data.len() - dist]
        }
"""))
r("circles-readpos", "C08 C02 C16", (L + "circles.rs", """        for _ in 0..len {
            let b = self.data[read_from];
            read_from = (read_from + 1) % self.data.len();
            into.write_all(&[b])?;
            self.push(b);
        }
""", """        let mut left = len;
        while left > 0 {
            let b = self.data[read_from];
            into.write_all(&[b])?;
            self.push(b);
            read_from = (read_from + 1) % self.data.len();
            left -= 1;
        }
"""))
r("bit-track", "C07 C03 C16", (L + "bit.rs", """        let bit = (self.current >> (7 - self.remaining_bits)) & 1;
        let bit = 1 == bit;

        if let Some(vec) = self.track.as_mut() {
            vec.push(bit);
        }
""", """        let bit = (self.current >> (7 - self.remaining_bits)) & 1 == 1;

        match self.track {
            Some(ref mut vec) => vec.push(bit),
            None => {}
        }
"""))
r("bit-lenhelper", "C07 C03 C04 C16", (L + "bit.rs", """        let len = self.read_aligned_u16()?;
        let ones_complement = self.read_aligned_u16()?;

        ensure!(
            (len ^ 0xFFFF) == ones_complement,
            "uncompressed block length validation failed"
        );

        let mut buf""", """        let len = self.read_stored_len()?;

        let mut buf"""), (L + "bit.rs", "    fn read_aligned_u16(&mut self)", """    fn read_stored_len(&mut self) -> Result<u16, Error> {
        let len = self.read_aligned_u16()?;
        let ones_complement = self.read_aligned_u16()?;

        ensure!(
            len == !ones_complement,
            "uncompressed block length validation failed"
        );

        Ok(len)
    }

    fn read_aligned_u16(&mut self)"""))
r("bit-writelen", "C07 C01", (L + "bit.rs", """        self.align()?;
        ensure!(
            data.len() <= usize::from(std::u16::MAX),
            "data too long to store"
        );

        self.write_aligned_u16(u16::try_from(data.len()).expect("todo: usize"))?;
        self.write_aligned_u16(u16::try_from(data.len()).expect("todo: usize") ^ 0xFFFF)?;
""", """        ensure!(
            data.len() <= usize::from(std::u16::MAX),
            "data too long to store"
        );
        let len = u16::try_from(data.len()).expect("todo: usize");

        self.align()?;
        self.write_aligned_u16(len)?;
        self.write_aligned_u16(!len)?;
"""))
r("bit-pop2", "C07", (L + "bit.rs", """        if 0 == self.len {
            return None;
        }

        let answer = self.get(self.len - 1);

        self.len -= 1;

        let bit = self.len % WORD_SIZE;
""", """        if self.is_empty() {
            return None;
        }

        let last = self.len - 1;
        let answer = self.get(last);
        let bit = last % WORD_SIZE;
        self.len = last;

"""))
r("tree-order", "C06 C01 C03", (L + "code_tree.rs", """        match nodes.into_iter().next().unwrap() {
            Node::Internal(left, right) => Ok(CodeTree {
                left: *left,
                right: *right,
            }),
            Node::Leaf(_) => panic!("root must be a node"),
        }
""", """        match nodes.pop() {
            Some(Node::Internal(left, right)) => Ok(CodeTree {
                left: *left,
                right: *right,
            }),
            Some(Node::Leaf(_)) | None => panic!("root must be a node"),
        }
"""))
r("tree-child", "C06 C01", (L + "code_tree.rs", """            store_code(into, plus_bit(&prefix, false), left);
            store_code(into, plus_bit(&prefix, true), right);
""", """            let mut zero = prefix.clone();
            zero.push(false);
            store_code(into, zero, left);

            let mut one = prefix;
            one.push(true);
            store_code(into, one, right);
"""))
r("tree-leaves", "C06 C03", (L + "code_tree.rs", """            let mut new_nodes = Vec::with_capacity(nodes.len() / 2 + canonical_code_lengths.len());

            // add leaves for matching positive lengths
            if i > 0 {
                new_nodes.extend(
                    canonical_code_lengths
                        .iter()
                        .enumerate()
                        .filter(|&(_, val)| i == *val)
                        .map(|(pos, _)| Node::Leaf(u16::try_from(pos).expect("dict size < 300"))),
                );
            }
""", """            let mut new_nodes = Vec::with_capacity(nodes.len() / 2 + canonical_code_lengths.len());

            // add leaves for matching positive lengths
            if i > 0 {
                for (pos, val) in canonical_code_lengths.iter().enumerate() {
                    if *val == i {
                        new_nodes.push(Node::Leaf(u16::try_from(pos).expect("dict size < 300")));
                    }
                }
            }
"""))
r("huff-codelens", "C03 C01 C16", (L + "huffman.rs", """    let mut run_val = None;
    let mut run_len = 0;
""", """    read_code_lens(reader, &code_len_code, &mut code_lens)?;

    let lit_len_code = CodeTree::new(&code_lens[0..usize::from(num_lit_len_codes)])?;
    let dist_code_len = &code_lens[usize::from(num_lit_len_codes)..];

    if 1 == dist_code_len.len() && 0 == dist_code_len[0] {
        return Ok((lit_len_code, None));
    }

    Ok((lit_len_code, Some(distance_tree(dist_code_len)?)))
}

fn read_code_lens<B: BitSource>(
    reader: &mut B,
    code_len_code: &CodeTree,
    code_lens: &mut [u8],
) -> Result<(), Error> {
    let code_lens_len = code_lens.len();
    let mut run_val = None;
    let mut run_len = 0;
"""), (L + "huffman.rs", """    ensure!(run_len == 0, "run exceeds number of codes");

    let lit_len_code = CodeTree::new(&code_lens[0..usize::from(num_lit_len_codes)])?;
    let dist_code_len = &code_lens[usize::from(num_lit_len_codes)..];

    if 1 == dist_code_len.len() && 0 == dist_code_len[0] {
        return Ok((lit_len_code, None));
    }
""", """    ensure!(run_len == 0, "run exceeds number of codes");
    Ok(())
}

fn distance_tree(dist_code_len: &[u8]) -> Result<CodeTree, Error> {
"""), (L + "huffman.rs", """    let dist_tree = if 1 == one_count""", """    if 1 == one_count"""), (L + "huffman.rs", """        CodeTree::new(&new_lens)?
    } else {
        CodeTree::new(dist_code_len)?
    };

    Ok((lit_len_code, Some(dist_tree)))
}
""", """        CodeTree::new(&new_lens)
    } else {
        CodeTree::new(dist_code_len)
    }
}
"""))
r("huff-lensvec", "C03 C01 C16", (L + "huffman.rs", """    let mut code_lens = vec![];
    for _ in 0..code_lens_len {
        code_lens.push(0u8);
    }
""", """    let mut code_lens = vec![0u8; code_lens_len];
"""))
r("huff-onecount", "C03 C01 C16", (L + "huffman.rs", """    for x in dist_code_len {
        if *x == 1 {
            one_count += 1;
        } else if *x > 1 {
            other_positive_count += 1;
        }
    }
""", """    for &x in dist_code_len {
        match x {
            0 => {}
            1 => one_count += 1,
            _ => other_positive_count += 1,
        }
    }
"""))
r("huff-loopend", "C03 C01 C16", (L + "huffman.rs", """    let mut i = 0;
    loop {
        if run_len > 0 {""", """    let mut i = 0;
    while i < code_lens_len {
        if run_len > 0 {"""), (L + "huffman.rs", """                panic!("symbol out of range");
            }
        }

        if i >= code_lens_len {
            break;
        }
    }
""", """                panic!("symbol out of range");
            }
        }
    }
"""))
r("huff-distdec", "C05 C03 C16", (L + "huffman.rs", """    if sym <= 3 {
        Ok(sym as u16 + 1)
    } else if sym <= 29 {
        let num_extra_bits = (sym / 2 - 1) as u8;
        Ok((((sym % 2 + 2) as u16) << num_extra_bits) + 1 + reader.read_part(num_extra_bits)?)
    } else if sym <= 31 {
        Err(anyhow!("reserved distance symbol"))
    } else {
        Err(anyhow!("invalid distance symbol"))
    }
""", """    match sym {
        0..=3 => Ok(sym + 1),
        4..=29 => {
            let num_extra_bits = (sym / 2 - 1) as u8;
            let extra = reader.read_part(num_extra_bits)?;
            let base = (sym % 2 + 2) << num_extra_bits;
            Ok(base + 1 + extra)
        }
        30 | 31 => Err(anyhow!("reserved distance symbol")),
        _ => Err(anyhow!("invalid distance symbol")),
    }
"""))
r("parse-kind", "C03 C04 C16", (L + "parse.rs", """        0 => {
            reader.align()?;
            reader.read_length_prefixed().map(Block::Uncompressed)
        }
""", """        0 => {
            reader.align()?;
            let data = reader.read_length_prefixed()?;
            Ok(Block::Uncompressed(data))
        }
"""), (L + "parse.rs", """            scan_huffman_data(reader, &length, distance.as_ref())
                .map(|codes| Block::DynamicHuffman { trees, codes })
""", """            let codes = scan_huffman_data(reader, &length, distance.as_ref())?;
            Ok(Block::DynamicHuffman { trees, codes })
"""))
r("parse-end", "C03 C04 C16", (L + "parse.rs", """        self.end = match self.inner.read_bit() {
            Ok(end) => end,
            Err(e) => return Some(Err(e)),
        };

        Some(read_block(&mut self.inner))
""", """        match self.inner.read_bit() {
            Ok(end) => {
                self.end = end;
                Some(read_block(&mut self.inner))
            }
            Err(e) => Some(Err(e)),
        }
"""))
r("ser-symbol", "C01", (L + "serialise.rs", """fn encode_run<W: Write>(""", """fn write_symbol<W: Write>(
    into: &mut BitWriter<W>,
    tree: &[Option<BitVec>],
    sym: usize,
) -> Result<(), Error> {
    into.write_vec(tree[sym].as_ref().unwrap())
}

fn encode_run<W: Write>("""), (L + "serialise.rs", """    into.write_vec(
        length_tree[huffman::encode_run_length(run) as usize]
            .as_ref()
            .unwrap(),
    )?;
""", """    write_symbol(into, length_tree, usize::from(huffman::encode_run_length(run)))?;
"""))
r("ser-extra", "C01", (L + "serialise.rs", """    if let Some((bits, val)) = huffman::extra_run_length(run) {
        into.write_bits_val(bits, val)?;
    }

    Ok(())
""", """    match huffman::extra_run_length(run) {
        Some((bits, val)) => into.write_bits_val(bits, val),
        None => Ok(()),
    }
"""))
r("ser-question", "C01 C13 C16", (L + "serialise.rs", """                let run_symbol_len = match self.length[usize::from(run_symbol)] {
                    Some(len) => len,
                    None => return None,
                };
""", """                let run_symbol_len = self.length[usize::from(run_symbol)]?;
"""))
r("ser-dict", "C02 C16", (L + "serialise.rs", """            Literal(byte) => {
                dictionary.push(byte);
                into.write_all(&[byte])?
            }
            Reference(r) => {
                dictionary.copy(r.dist, r.run(), &mut into)?;
            }
""", """            Literal(byte) => {
                let one = [byte];
                into.write_all(&one)?;
                dictionary.push(byte);
            }
            Reference(r) => dictionary.copy(r.dist, r.run(), &mut into)?,
"""))
r("strace-corrects", "C10", (L + "serialise_trace.rs", """                let representation_offset = 32_768;
                let max_representable = u16::MAX - representation_offset;
                while corrects > usize::from(max_representable) {
                    ret.write_u16::<LE>(representation_offset + max_representable)
                        .expect("writing to a vector");
                    corrects -= usize::from(max_representable);
                }

                assert_ne!(0, corrects);

                ret.write_u16::<LE>(
                    representation_offset + u16::try_from(corrects).expect("max < u16::MAX"),
                )
                .expect("writing to a vector");
""", """                let representation_offset = 32_768;
                let max_representable = u16::MAX - representation_offset;
                while corrects > 0 {
                    let now = corrects.min(usize::from(max_representable));
                    ret.write_u16::<LE>(
                        representation_offset + u16::try_from(now).expect("max < u16::MAX"),
                    )
                    .expect("writing to a vector");
                    corrects -= now;
                }
"""))
r("strace-repeat", "C10 C16", (L + "serialise_trace.rs", """            for _ in 0..count {
                ret.push(Trace::Correct);
            }
""", """            ret.extend(std::iter::repeat(Trace::Correct).take(usize::from(count)));
"""))
r("strace-helper", "C10", (L + "serialise_trace.rs", """            let dist = first;
            let run_minus_3 = data.read_u8()?;
            ret.push(Trace::Actually(Ref::new(dist, u16::from(run_minus_3) + 3)));
""", """            ret.push(read_actually(&mut data, first)?);
"""), (L + "serialise_trace.rs", "pub fn read<R: Read>(", """fn read_actually<R: Read>(data: &mut R, dist: u16) -> Result<Trace, Error> {
    let run_minus_3 = data.read_u8()?;
    Ok(Trace::Actually(Ref::new(dist, u16::from(run_minus_3) + 3)))
}

pub fn read<R: Read>("""))
r("trace-expect", "C09", (L + "trace.rs", """        match codes.next() {
            Some(&code) => {
                ret.push(match code {
                    Code::Literal(_) => Trace::ActuallyLiteral,
                    Code::Reference(r) => Trace::Actually(r),
                });
                scanner.feedback(code);
            }
            None => panic!("the guesser guessed more than there actually are?"),
        }
""", """        let code = *codes
            .next()
            .expect("the guesser guessed more than there actually are?");
        scanner.feedback(code);
        ret.push(match code {
            Code::Literal(_) => Trace::ActuallyLiteral,
            Code::Reference(r) => Trace::Actually(r),
        });
"""))
r("trace-break", "C09", (L + "trace.rs", """            match hint {
                Trace::ActuallyLiteral | Trace::Actually(_) => {
                    // the guesser was wrong, and we moved in a way it doesn't understand; ignore it
                    break;
                }
                Trace::Correct => {}
            }
""", """            if hint != Trace::Correct {
                // the guesser was wrong, and we moved in a way it doesn't understand; ignore it
                break;
            }
"""), )
r("tech-match", "C12 C13 C14", (L + "technique.rs", """        (
            current_literal,
            candidates.and_then(|it| {
                self.technique.config.picker.picker(
                    it.take(limit),
                    self.technique.config.wams.quit_search_above_length,
                )
            }),
        )
""", """        let config = &self.technique.config;
        let best = match candidates {
            Some(it) => config
                .picker
                .picker(it.take(limit), config.wams.quit_search_above_length),
            None => None,
        };
        (current_literal, best)
"""))
r("tech-look", "C12 C13 C14", (L + "technique.rs", """        if let Some(run) = other {
            if let Some(lookahead) = self.technique.config.wams.lookahead {
                if lookahead.abort_above_length > run {
                    return (current_literal, None);
                }

                if run > lookahead.apathetic_above_length {
                    limit /= 4;
                }
            }
        }
""", """        match (other, self.technique.config.wams.lookahead) {
            (Some(run), Some(lookahead)) => {
                if run < lookahead.abort_above_length {
                    return (current_literal, None);
                }

                if run > lookahead.apathetic_above_length {
                    limit /= 4;
                }
            }
            _ => {}
        }
"""))
r("tech-push", "C12 C09", (L + "technique.rs", """        let r = match code {
            Code::Reference(r) => r,
            Code::Literal(_) => return,
        };

        if r.run() <= limit {
            return;
        }

        self.obscured.push((old_pos, r.run()))
""", """        if let Code::Reference(r) = code {
            if r.run() > limit {
                self.obscured.push((old_pos, r.run()));
            }
        }
"""))
r("look-match2", "C14 C09", (L + "lookahead.rs", """    vec![match looker.best_candidate(pos) {
        (_, Some(r)) => Code::Reference(r),
        (b, None) => Code::Literal(b),
    }]
""", """    let (literal, best) = looker.best_candidate(pos);
    let code = match best {
        Some(r) => r.into(),
        None => Code::Literal(literal),
    };
    vec![code]
"""))
r("look-bound", "C14 C09", (L + "lookahead.rs", """    match second_best {
        Some(second_run) => match third_best {
            Some(third_run) if third_run.run() > second_run.run() => third_result(third_run),
            Some(_) | None => vec![Code::Literal(first_literal), second_run.into()],
        },
        None => match third_best {
            Some(third_run) => third_result(third_run),
            None => vec![first_best.into()],
        },
    }
""", """    match (second_best, third_best) {
        (Some(second_run), Some(third_run)) if third_run.run() > second_run.run() => {
            third_result(third_run)
        }
        (Some(second_run), _) => vec![Code::Literal(first_literal), second_run.into()],
        (None, Some(third_run)) => third_result(third_run),
        (None, None) => vec![first_best.into()],
    }
"""))
r("picker-let", "C13", (L + "picker.rs", """    longest(candidates, cap).filter(|r| r.run() > 3 || r.dist <= 4096)
""", """    let best = longest(candidates, cap)?;
    if best.run() == 3 && best.dist > 4096 {
        None
    } else {
        Some(best)
    }
"""))
r("iters-order", "C13", (L + "iters.rs", """        if candidate_score > max_score {
            max = candidate;
            max_score = candidate_score;

            if max_score >= *cap {
                break;
            }
        }
""", """        if candidate_score <= max_score {
            continue;
        }

        max = candidate;
        max_score = candidate_score;
        if max_score >= *cap {
            return Some(max);
        }
"""))
r("obscure-range", "C12 C11", (L + "obscure.rs", """        if needle > start && needle < (start + len as Int) {
""", """        let end = start + len as Int;
        if start < needle && needle < end {
"""))
r("gzip-split", "C15 C16", (L + "gzip.rs", """    if has_bit(flags, 2) {
        // extra
        let mut buf = [0u8; 2];
        from.read_exact(&mut buf)?;
        whole_thing.extend(&buf);
        let extra_field_length = ((buf[1] as usize) << 8) | (buf[0] as usize);
        let mut extra_field = vec![0u8; extra_field_length];
        from.read_exact(&mut extra_field)?;
        whole_thing.extend(&extra_field);
    }
""", """    if has_bit(flags, 2) {
        read_extra(&mut from, &mut whole_thing)?;
    }
"""), (L + "gzip.rs", "fn read_null_terminated<R", """fn read_extra<R: Read>(mut from: R, into: &mut Vec<u8>) -> Result<(), Error> {
    let mut buf = [0u8; 2];
    from.read_exact(&mut buf)?;
    into.extend(&buf);
    let mut extra_field = vec![0u8; usize::from(u16::from_le_bytes(buf))];
    from.read_exact(&mut extra_field)?;
    into.extend(&extra_field);
    Ok(())
}

fn read_null_terminated<R"""))
r("gzip-mask", "C15 C16", (L + "gzip.rs", "    (val & (1 << bit)) == (1 << bit)\n", "    0 != val & (1 << bit)\n"))
r("gzip-while", "C15 C16", (L + "gzip.rs", """    loop {
        let mut buf = [0u8; 1];
        from.read_exact(&mut buf)?;
        into.push(buf[0]);
        if 0 == buf[0] {
            return Ok(());
        }
    }
""", """    let mut buf = [0u8; 1];
    loop {
        from.read_exact(&mut buf)?;
        let byte = buf[0];
        into.push(byte);
        if byte == 0 {
            break;
        }
    }
    Ok(())
"""))
r("filter-slice", "C18", (L + "filter.rs", """        let len = self.inner.write(buf)?;
        self.hash.update(&buf[0..len]);
        Ok(len)
""", """        let written = self.inner.write(buf)?;
        let (accepted, _) = buf.split_at(written);
        self.hash.update(accepted);
        Ok(written)
"""))
r("filter-map", "C18", (L + "filter.rs", """        let len = self.inner.read(buf)?;
        self.hash.update(&buf[0..len]);
        Ok(len)
""", """        let result = self.inner.read(buf);
        if let Ok(len) = result {
            self.hash.update(&buf[..len]);
        }
        result
"""))
r("zero-blockfn", "C17", (Z + "zero.rs", """        if reader.peek().is_some() {
            // uncompressed block, not end of file
            writer.write_all(&[0])?;
        } else {
            // uncompressed block, end of file
            writer.write_all(&[0b0000_0001])?;
        }

        let len = buf.len() as u16;
        writer.write_u16::<LE>(len)?;
        writer.write_u16::<LE>(len ^ 0xffff)?;
        writer.write_all(&buf)?;
    }
""", """        write_stored(&mut writer, &buf, reader.peek().is_none())?;
    }
"""), (Z + "zero.rs", "pub fn run<R: Read>(", """fn write_stored<W: Write>(writer: &mut W, buf: &[u8], last: bool) -> io::Result<()> {
    writer.write_all(&[if last { 1 } else { 0 }])?;
    let len = buf.len() as u16;
    writer.write_u16::<LE>(len)?;
    writer.write_u16::<LE>(!len)?;
    writer.write_all(buf)
}

pub fn run<R: Read>("""))
r("zero-reorder", "C17", (Z + "zero.rs", """        data_len = data_len.wrapping_add(buf.len() as u32);
        data_csum.update(&buf);

""", ""), (Z + "zero.rs", """        writer.write_all(&buf)?;
    }
""", """        writer.write_all(&buf)?;

        data_csum.update(&buf);
        data_len = data_len.wrapping_add(u32::from(len));
    }
"""))
r("zero-loop", "C17", (Z + "zero.rs", """    for pos in 0..(RSYNC_MAX - RSYNC_MIN) {
        if 0 == (sum % RSYNC_MOD) {
            break;
        }
""", """    let mut pos = 0;
    while pos < RSYNC_MAX - RSYNC_MIN && sum % RSYNC_MOD != 0 {
"""), (Z + "zero.rs", """                sum = sum.wrapping_sub(usize::from(buf[pos]));
                buf.push(byte);
            }
            None => break,
        }
""", """                sum = sum.wrapping_sub(usize::from(buf[pos]));
                buf.push(byte);
                pos += 1;
            }
            None => break,
        }
"""))
r("cat-block", "C02", (Z + "cat.rs", """        librezip::decompressed_block(&mut stdout, &mut dictionary, &block?)?;
""", """        let block = block?;
        librezip::decompressed_block(&mut stdout, &mut dictionary, &block)?;
"""))
r("lib-emitted", "C09 C14", (L + "lib.rs", """        match *self {
            Code::Literal(_) => 1,
            Code::Reference(r) => r.run(),
        }
""", """        if let Code::Reference(r) = self {
            r.run()
        } else {
            1
        }
"""))

# the dump tool
D = Z + "dump.rs"
r("dump-inline", "C19", (D, 'println!("block {}:", id);', 'println!("block {id}:");'))
r("dump-counter", "C19", (D, """    for (id, block) in librezip::parse_deflate(&mut reader).into_iter().enumerate() {
        let block = block?;

        println!("block {}:", id);
""", """    let mut id = 0;
    for block in librezip::parse_deflate(&mut reader) {
        let block = block?;

        println!("block {}:", id);
        id += 1;
"""))
r("dump-helper", "C19", (D, """    for code in codes {
        match *code {
            Literal(chr) => {
                println!("    - lit: 0x{:02x}: {:?}", chr, char::from(chr));
            }
            Reference(r) => {
                println!(
                    "    - backref: {} byte(s) back, {} bytes long",
                    r.dist,
                    r.run()
                );
            }
        }
    }
}
""", """    for code in codes {
        match *code {
            Literal(chr) => {
                println!("    - lit: 0x{:02x}: {:?}", chr, char::from(chr));
            }
            Reference(r) => print_reference(r.dist, r.run()),
        }
    }
}

fn print_reference(dist: u16, run: u16) {
    println!("    - backref: {} byte(s) back, {} bytes long", dist, run);
}
"""))
r("dump-writeln", "C19", (D, "use std::io::Read;\n", "use std::io::{self, Read, Write};\n"), (D, """    for code in codes {
        match *code {
            Literal(chr) => {
                println!("    - lit: 0x{:02x}: {:?}", chr, char::from(chr));
            }
            Reference(r) => {
                println!(
                    "    - backref: {} byte(s) back, {} bytes long",
                    r.dist,
                    r.run()
                );
            }
        }
    }
""", """    let out = io::stdout();
    let mut out = out.lock();
    for code in codes {
        match *code {
            Literal(chr) => {
                writeln!(out, "    - lit: 0x{:02x}: {:?}", chr, char::from(chr)).unwrap();
            }
            Reference(r) => {
                writeln!(out, "    - backref: {} byte(s) back, {} bytes long", r.dist, r.run()).unwrap();
            }
        }
    }
"""))
r("dump-arms", "C19", (D, """            Uncompressed(data) => {
                println!(" - uncompressed: {} bytes", data.len());
            }
            FixedHuffman(codes) => {
                println!(" - fixed huffman:");
                print(&codes);
            }
            DynamicHuffman { trees, codes } => {
                println!(" - dynamic huffman: {:?}", trees);
                print(&codes);
            }
""", """            DynamicHuffman { trees, codes } => {
                println!(" - dynamic huffman: {:?}", trees);
                print(&codes);
            }
            FixedHuffman(ref codes) => {
                println!(" - fixed huffman:");
                print(codes);
            }
            Uncompressed(ref data) => {
                let n = data.len();
                println!(" - uncompressed: {} bytes", n);
            }
"""))
r("dump-cast", "C19", (D, """                println!("    - lit: 0x{:02x}: {:?}", chr, char::from(chr));
""", """                let shown = chr as char;
                println!("    - lit: 0x{:02x}: {:?}", chr, shown);
"""), (D, """            Reference(r) => {
                println!(
                    "    - backref: {} byte(s) back, {} bytes long",
                    r.dist,
                    r.run()
                );
            }
""", """            Reference(r) => {
                let run = usize::from(r.run());
                println!("    - backref: {} byte(s) back, {run} bytes long", r.dist);
            }
"""))
r("dump-each", "C19", (D, """    for code in codes {
        match *code {
            Literal(chr) => {
                println!("    - lit: 0x{:02x}: {:?}", chr, char::from(chr));
            }
            Reference(r) => {
                println!(
                    "    - backref: {} byte(s) back, {} bytes long",
                    r.dist,
                    r.run()
                );
            }
        }
    }
""", """    codes.iter().for_each(|code| match *code {
        Literal(chr) => println!("    - lit: 0x{:02x}: {:?}", chr, char::from(chr)),
        Reference(r) => println!("    - backref: {} byte(s) back, {} bytes long", r.dist, r.run()),
    });
"""))
r("dump-while", "C19", (D, """    for (id, block) in librezip::parse_deflate(&mut reader).into_iter().enumerate() {
        let block = block?;
""", """    let mut blocks = librezip::parse_deflate(&mut reader).enumerate();
    while let Some((id, block)) = blocks.next() {
        let block = block?;
"""))
# the command line, and how a BitVec shows itself
M, B = Z + "main.rs", L + "bit.rs"
r("main-let", "C02 C17 C19", (M, "Command::Dump { file } => dump::run(open_file(file)?),", "Command::Dump { file } => {\n            let from = open_file(file)?;\n            dump::run(from)\n        }"))
r("main-nobuf", "C02 C17 C19", (M, "Box::new(io::BufReader::new(fs::File::open(path)?))", "Box::new(io::BufReader::with_capacity(1 << 16, fs::File::open(&path)?))"))
r("main-box", "C02 C17 C19", (M, "Result<impl Read, Error>", "Result<Box<dyn Read>, Error>"))
r("main-early", "C02 C17 C19", (M, """    Ok(match file {
        Some(path) => Box::new(io::BufReader::new(fs::File::open(path)?)),
        None => Box::new(io::stdin()) as Box<dyn Read>,
    })""", """    if let Some(path) = file {
        let opened = fs::File::open(path)?;
        return Ok(Box::new(io::BufReader::new(opened)) as Box<dyn Read>);
    }
    Ok(Box::new(io::stdin().lock()))"""))
r("main-file", "C02 C17 C19", (M, """    match cli.command {
        Command::Cat { file } => cat::run(open_file(file)?),
        Command::Dump { file } => dump::run(open_file(file)?),
        Command::Zero { file } => zero::run(open_file(file)?),
    }""", """    let Cli { command } = cli;
    match command {
        Command::Zero { file } => zero::run(open_file(file)?),
        Command::Dump { file } => dump::run(open_file(file)?),
        Command::Cat { file } => cat::run(open_file(file)?),
    }"""))
r("main-helper", "C02 C17 C19", (M, """fn main() -> Result<(), Error> {
    let cli = Cli::parse();

    match cli.command {""", """fn main() -> Result<(), Error> {
    dispatch(Cli::parse().command)
}

fn dispatch(command: Command) -> Result<(), Error> {
    match command {"""))
BD = 'write!(f, "{}", if bit { "1" } else { "0" })?;'
r("bitdbg-str", "C19 C07", (B, BD, 'f.write_str(if bit { "1" } else { "0" })?;'))
r("bitdbg-num", "C19 C07", (B, BD, 'write!(f, "{}", bit as u8)?;'))
r("bitdbg-from", "C19", (B, BD, 'write!(f, "{}", u8::from(bit))?;'))
r("bitdbg-index", "C19 C07", (B, """        for bit in self.iter() {
            write!(f, "{}", if bit { "1" } else { "0" })?;
        }
        Ok(())""", """        for i in 0..self.len() {
            f.write_str(if self.get(i) { "1" } else { "0" })?;
        }
        Ok(())"""))
r("bitdbg-collect", "C19 C07", (B, """        write!(f, "BitVec: {}: ", self.len())?;
        for bit in self.iter() {
            write!(f, "{}", if bit { "1" } else { "0" })?;
        }
        Ok(())""", """        let digits: String = self.iter().map(|bit| if bit { '1' } else { '0' }).collect();
        write!(f, "BitVec: {}: {}", self.len(), digits)"""))
r("bitdbg-split", "C19", (B, """        write!(f, "BitVec: {}: ", self.len())?;
""", """        f.write_str("BitVec: ")?;
        write!(f, "{}", self.len())?;
        f.write_str(": ")?;
"""))

# helpers the verifier may not take
r("x-circle-start", "C08 C02", (L + "circles.rs", """        let mut read_from = (self
            .idx
            .wrapping_sub(usize::from(dist))
            .wrapping_add(self.data.len()))
            % self.data.len();
""", """        let mut read_from = self.place_of(dist);
"""), (L + "circles.rs", """        let target = self.idx as isize - (dist as isize);
        let idx = if target >= 0 {
            target
        } else {
            target + self.data.len() as isize
        } as usize;

        self.data[idx]
    }
""", """        self.data[self.place_of(dist)]
    }

    fn place_of(&self, dist: u16) -> usize {
        (self.idx as isize - dist as isize).rem_euclid(self.data.len() as isize) as usize
    }
"""))
r("x-circle-ring", "C08", (L + "circles.rs", """        let mut ret = Vec::with_capacity(usize::from(self.valid_cap));
        for pos in (1..=self.valid_cap).rev() {
            ret.push(self.get_at_dist(pos));
        }

        ret
    }
""", """        self.oldest_first().collect()
    }

    fn oldest_first<'a>(&'a self) -> impl Iterator<Item = u8> + 'a {
        (1..=self.valid_cap).rev().map(move |pos| self.get_at_dist(pos))
    }
"""))
r("x-tree-leaves", "C06 C03", (L + "code_tree.rs", """                new_nodes.extend(
                    canonical_code_lengths
                        .iter()
                        .enumerate()
                        .filter(|&(_, val)| i == *val)
                        .map(|(pos, _)| Node::Leaf(u16::try_from(pos).expect("dict size < 300"))),
                );
""", """                new_nodes.extend(leaves_at(canonical_code_lengths, i));
"""), (L + "code_tree.rs", """fn decode_symbol_impl<B""", """fn leaves_at<'a>(lengths: &'a [u8], depth: u8) -> impl Iterator<Item = Node> + 'a {
    lengths
        .iter()
        .zip(0u16..)
        .filter(move |&(val, _)| depth == *val)
        .map(|(_, sym)| Node::Leaf(sym))
}

fn decode_symbol_impl<B"""))
r("x-parse-kind", "C03 C04 C01", (L + "parse.rs", """        3 => bail!("reserved block type"),
        _ => unreachable!(),
    }
}
""", """        other => reserved(other),
    }
}

fn reserved<T>(kind: u16) -> Result<T, Error> {
    assert_eq!(3, kind);
    Err(std::iter::once(kind).map(|k| anyhow::format_err!("reserved block type {}", k)).next().unwrap())
}
"""))
r("x-huff-cl", "C03 C01", (L + "huffman.rs", """    let mut code_lens = vec![];
    for _ in 0..code_lens_len {
        code_lens.push(0u8);
    }
""", """    let mut code_lens = zeroes(code_lens_len);
"""), (L + "huffman.rs", """pub fn encode_run_length""", """fn zeroes(n: usize) -> Vec<u8> {
    std::iter::repeat(0u8).take(n).collect()
}

pub fn encode_run_length"""))
r("x-huff-order", "C03 C01", (L + "huffman.rs", """        let pos = if i % 2 == 0 { 8 + i / 2 } else { 7 - i / 2 };
        code_len_code_len[pos]""", """        let pos = place(i);
        code_len_code_len[pos]"""), (L + "huffman.rs", """pub fn encode_run_length""", """fn place(i: usize) -> usize {
    "8796a5b4c3d2e1f".chars().nth(i).and_then(|c| c.to_digit(16)).expect("fifteen of them") as usize
}

pub fn encode_run_length"""))
r("x-ser-kind", "C01", (L + "serialise.rs", """            into.write_bits_val(2, 0)?;
""", """            into.write_bits_val(2, kind(block))?;
"""), (L + "serialise.rs", """            into.write_bits_val(2, 1)?;
""", """            into.write_bits_val(2, kind(block))?;
"""), (L + "serialise.rs", """            into.write_bits_val(2, 2)?;
""", """            into.write_bits_val(2, kind(block))?;
"""), (L + "serialise.rs", """pub struct Lengths {""", """fn kind(block: &Block) -> u16 {
    [matches!(*block, Block::FixedHuffman(_)) as u16, 2 * matches!(*block, Block::DynamicHuffman { .. }) as u16].iter().sum()
}

pub struct Lengths {"""))
r("x-gzip-two", "C15 C16", (L + "gzip.rs", """    if has_bit(flags, 1) {
        // CRC
        let mut buf = [0u8; 2];
        from.read_exact(&mut buf)?;
        whole_thing.extend(&buf);
    }
""", """    if has_bit(flags, 1) {
        // CRC
        copy_some(&mut from, &mut whole_thing, 2)?;
    }
"""), (L + "gzip.rs", """#[inline]
fn has_bit""", """fn copy_some<R: Read>(from: R, into: &mut Vec<u8>, n: u64) -> Result<(), Error> {
    let before = into.len();
    from.take(n).read_to_end(into)?;
    ensure!(into.len() - before == n as usize, "cut short");
    Ok(())
}

#[inline]
fn has_bit"""))
r("x-strace-count", "C10", (L + "serialise_trace.rs", """traces.peeking_take_while(|x| Trace::Correct == **x).count();""", """leading(&mut traces);"""), (L + "serialise_trace.rs", """pub fn read<R: Read>""", """fn leading<'a, I: Iterator<Item = &'a Trace>>(traces: &mut std::iter::Peekable<I>) -> usize {
    let mut n = 0;
    while traces.next_if(|x| Trace::Correct == **x).is_some() {
        n += 1;
    }
    n
}

pub fn read<R: Read>"""))
r("x-trace-hint", "C09", (L + "trace.rs", """            let orig = match hint {
                Trace::Correct => guess,
                Trace::Actually(r) => Code::Reference(r),
                Trace::ActuallyLiteral => Code::Literal(technique.byte_at(scanner.pos)),
            };
""", """            let orig = corrected(hint).unwrap_or_else(|lit| if lit { Code::Literal(technique.byte_at(scanner.pos)) } else { guess });
"""), (L + "trace.rs", """pub fn restore(""", """fn corrected(hint: Trace) -> Result<Code, bool> {
    match hint {
        Trace::Correct => Err(false),
        Trace::Actually(r) => Ok(Code::Reference(r)),
        Trace::ActuallyLiteral => Err(true),
    }
}

pub fn restore("""))
r("x-tech-hide", "C12 C09 C13", (L + "technique.rs", """        if r.run() <= limit {
            return;
        }

        self.obscured.push((old_pos, r.run()))
    }
""", """        self.obscured.extend(hidden(old_pos, r.run(), limit));
    }
"""), (L + "technique.rs", """#[derive(Debug)]
pub struct Scanner<""", """fn hidden(pos: usize, run: u16, limit: u16) -> Option<Obscure> {
    Some((pos, run)).filter(|_| run > limit)
}

#[derive(Debug)]
pub struct Scanner<"""))
r("x-refs-key", "C11 C12", (L + "all_refs.rs", """            Some(Key {
                b0: self.get(data_pos),
                b1: self.get(data_pos + 1),
                b2: self.get(data_pos + 2),
            })
""", """            let [b0, b1, b2] = self.three(data_pos);
            Some(Key { b0, b1, b2 })
"""), (L + "all_refs.rs", """    fn key(&self, data_pos: usize)""", """    fn three(&self, from: usize) -> [u8; 3] {
        let mut three = (from..from + 3).map(|at| self.get(at));
        [(); 3].map(|()| three.next().unwrap())
    }

    fn key(&self, data_pos: usize)"""))
r("x-zero-sum", "C17", (Z + "zero.rs", """                sum = sum.wrapping_add(usize::from(byte));
                sum = sum.wrapping_sub(usize::from(buf[pos]));
""", """                sum = rolled(sum, byte, buf[pos]);
"""), (Z + "zero.rs", """pub fn run<R""", """fn rolled(sum: usize, new: u8, old: u8) -> usize {
    [new].iter().fold(sum.wrapping_sub(old.into()), |s, b| s.wrapping_add((*b).into()))
}

pub fn run<R"""))
r("y-gzip-flags", "C15", (L + "gzip.rs", """    let flags = header[3];
    ensure!(0 == (flags & 0b1110_0000), "reserved flags bits set");
""", """    let flags = Flags(header[3]);
    ensure!(!flags.reserved(), "reserved flags bits set");
"""), (L + "gzip.rs", """#[inline]
fn has_bit(val: u8, bit: u8) -> bool {
    (val & (1 << bit)) == (1 << bit)
}
""", """#[derive(Clone, Copy)]
struct Flags(u8);

impl Flags {
    fn reserved(self) -> bool {
        0 != (self.0 & 0b1110_0000)
    }
}

#[inline]
fn has_bit(val: Flags, bit: u8) -> bool {
    (val.0 & (1 << bit)) == (1 << bit)
}
"""))
r("y-parse-kind", "C01 C06", (L + "parse.rs", """    match reader.read_part(2)? {
        0 => {
            reader.align()?;
""", """    match BlockKind::from(reader.read_part(2)?) {
        BlockKind::Stored => {
            reader.align()?;
"""), (L + "parse.rs", "        1 => scan_huffman_data(", "        BlockKind::Fixed => scan_huffman_data("),
("lib/src/parse.rs", """        2 => {
            // scope""", """        BlockKind::Dynamic => {
            // scope"""), (L + "parse.rs", """        3 => bail!("reserved block type"),
        _ => unreachable!(),
    }
}
""", """        BlockKind::Reserved => bail!("reserved block type"),
    }
}

enum BlockKind {
    Stored,
    Fixed,
    Dynamic,
    Reserved,
}

impl From<u16> for BlockKind {
    fn from(bits: u16) -> Self {
        match bits {
            0 => BlockKind::Stored,
            1 => BlockKind::Fixed,
            2 => BlockKind::Dynamic,
            3 => BlockKind::Reserved,
            _ => unreachable!(),
        }
    }
}
"""))
r("y-trace-from", "C07", (L + "trace.rs", """                ret.push(match code {
                    Code::Literal(_) => Trace::ActuallyLiteral,
                    Code::Reference(r) => Trace::Actually(r),
                });
""", """                ret.push(Trace::from(code));
"""), (L + "trace.rs", """pub fn restore(""", """impl From<Code> for Trace {
    fn from(code: Code) -> Trace {
        match code {
            Code::Literal(_) => Trace::ActuallyLiteral,
            Code::Reference(r) => Trace::Actually(r),
        }
    }
}

pub fn restore("""))
r("y-zero-rolling", "C17", (Z + "zero.rs", "    let mut sum = 0usize;\n", "    let mut sum = Rolling::default();\n"),
(Z + "zero.rs", """                let byte = byte?;
                sum = sum.wrapping_add(usize::from(byte));
                buf.push(byte);
            }
            None => return Ok(buf),
""", """                let byte = byte?;
                sum.add(byte);
                buf.push(byte);
            }
            None => return Ok(buf),
"""), (Z + "zero.rs", """        if 0 == (sum % RSYNC_MOD) {""", """        if sum.boundary() {"""), (Z + "zero.rs", """                sum = sum.wrapping_add(usize::from(byte));
                sum = sum.wrapping_sub(usize::from(buf[pos]));
""", """                sum.add(byte);
                sum.sub(buf[pos]);
"""), (Z + "zero.rs", """/// Return: empty""", """#[derive(Default)]
struct Rolling {
    sum: usize,
}

impl Rolling {
    fn add(&mut self, byte: u8) {
        self.sum = self.sum.wrapping_add(usize::from(byte));
    }

    fn sub(&mut self, byte: u8) {
        self.sum = self.sum.wrapping_sub(usize::from(byte));
    }

    fn boundary(&self) -> bool {
        0 == (self.sum % RSYNC_MOD)
    }
}

/// Return: empty"""))
r("y-strace-const", "C08", (L + "serialise_trace.rs", """pub fn verify(""", """/// Counts of correct guesses are stored above this.
const OFFSET: u16 = 1 << 15;

pub fn verify("""), (L + "serialise_trace.rs", """                let representation_offset = 32_768;
                let max_representable = u16::MAX - representation_offset;
""", """                let max_representable = u16::MAX - OFFSET;
"""), (L + "serialise_trace.rs", "ret.write_u16::<LE>(representation_offset + max_representable)", "ret.write_u16::<LE>(OFFSET + max_representable)"),
(L + "serialise_trace.rs", "representation_offset + u16::try_from(corrects)", "OFFSET + u16::try_from(corrects)"),
(L + "serialise_trace.rs", "first <= 32_768", "first <= OFFSET"), (L + "serialise_trace.rs", "let count = first - 32_768;", "let count = first - OFFSET;"))
r("y-strace-put", "C08", (L + "serialise_trace.rs", """            Trace::Actually(r) => {
                ret.write_u16::<LE>(r.dist).expect("writing to vector");
                ret.push((r.run() - 3) as u8);
""", """            Trace::Actually(r) => {
                let (dist, run_minus_3) = packed(r);
                ret.extend_from_slice(&dist);
                ret.push(run_minus_3);
"""), (L + "serialise_trace.rs", """pub fn read<R""", """fn packed(r: Ref) -> ([u8; 2], u8) {
    (r.dist.to_le_bytes(), (r.run() - 3) as u8)
}

pub fn read<R"""))
r("y-ser-tag", "C01 C02", (L + "serialise.rs", """    match *block {
        Uncompressed(ref data) => {
            into.write_bits_val(2, 0)?;
            into.write_length""", """    into.write_bits_val(2, block.tag())?;

    match *block {
        Uncompressed(ref data) => {
            into.write_length"""), (L + "serialise.rs", """            into.write_bits_val(2, 1)?;
""", ""), (L + "serialise.rs", """            into.write_bits_val(2, 2)?;
""", ""), (L + "serialise.rs", """pub fn compressed_block<""", """impl Block {
    fn tag(&self) -> u16 {
        match *self {
            Block::Uncompressed(_) => 0,
            Block::FixedHuffman(_) => 1,
            Block::DynamicHuffman { .. } => 2,
        }
    }
}

pub fn compressed_block<"""))
r("y-circ-wrap", "C03", (L + "circles.rs", """        self.idx = (self.idx + 1) % self.data.len();
""", """        self.idx = self.next(self.idx);
"""), (L + "circles.rs", """            read_from = (read_from + 1) % self.data.len();
            into.write_all(&[b])?;
            self.push(b);
""", """            read_from = self.next(read_from);
            into.write_all(&[b])?;
            self.push(b);
"""), (L + "circles.rs", """    pub fn extend(""", """    fn next(&self, idx: usize) -> usize {
        let next = idx + 1;
        if next == self.data.len() {
            0
        } else {
            next
        }
    }

    pub fn extend("""))
r("y-look-pair", "C10 C13", (L + "lookahead.rs", """    let (second_literal, mut second_best) = looker.best_candidate(pos + 1);
    second_best = second_best.filter(|x| x.run() > 3);
""", """    let (second_literal, second_best) = longer_than(looker, pos + 1, 3);
"""), (L + "lookahead.rs", """    let (_, mut third_best) = looker.best_candidate(pos + 2);
    third_best = third_best.filter(|x| x.run() > 4);
""", """    let (_, third_best) = longer_than(looker, pos + 2, 4);
"""), (L + "lookahead.rs", """fn three_zip<""", """fn longer_than<L: Looker>(looker: &L, pos: usize, run: u16) -> (u8, Option<Ref>) {
    let (literal, best) = looker.best_candidate(pos);
    (literal, best.filter(|x| x.run() > run))
}

fn three_zip<"""))
r("y-look-state", "C10 C13", (L + "lookahead.rs", """    let (mut curr_lit, mut curr_ref) = match looker.best_candidate(pos) {
        (lit, Some(start)) => (lit, start),
""", """    let mut curr = match looker.best_candidate(pos) {
        (lit, Some(start)) => Held { lit, found: start },
"""), (L + "lookahead.rs", """        match looker.best_candidate_better_than(pos, Some(curr_ref.run())) {
            (b, Some(new)) if new.run() > curr_ref.run() => {
                ret.push(Code::Literal(curr_lit));
                curr_lit = b;
                curr_ref = new;
            }
""", """        match looker.best_candidate_better_than(pos, Some(curr.found.run())) {
            (lit, Some(found)) if found.run() > curr.found.run() => {
                ret.push(Code::Literal(curr.lit));
                curr = Held { lit, found };
            }
"""), (L + "lookahead.rs", "ret.push(Code::Reference(curr_ref));", "ret.push(Code::Reference(curr.found));"),
(L + "lookahead.rs", """fn gzip<L""", """struct Held {
    lit: u8,
    found: Ref,
}

fn gzip<L"""))
r("y-huff-order", "C04 C05", (L + "huffman.rs", """    for i in 0..(usize::from(num_code_len_codes) - 4) {
        let pos = if i % 2 == 0 { 8 + i / 2 } else { 7 - i / 2 };
        code_len_code_len[pos] = reader.read_part(3)? as u8;
    }
""", """    for pos in &ORDER[..usize::from(num_code_len_codes) - 4] {
        code_len_code_len[*pos] = reader.read_part(3)? as u8;
    }
"""), (L + "huffman.rs", """pub fn read_codes<""", """/// The order in which the lengths after the first four are stored.
const ORDER: [usize; 15] = [8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

pub fn read_codes<"""))
r("y-picker-score", "C12 C13", (L + "picker.rs", """    iters::capped_max_by(candidates, &cap, |r| r.run())
""", """    iters::capped_max_by(candidates, &cap, Ref::run)
"""), (L + "picker.rs", "filter(|r| r.run() > 3 || r.dist <= 4096)", "filter(|r| r.run() > 3 || r.dist <= FAR)"), (L + "picker.rs", """fn longest<I""", """const FAR: u16 = 4096;

fn longest<I"""))
r("y-tech-limit", "C09 C10", (L + "technique.rs", """        let limit = match self.technique.config.wams.insert_only_below_length {
            Some(limit) => limit,
            None => return,
        };

        let r = match code {
            Code::Reference(r) => r,
            Code::Literal(_) => return,
        };

        if r.run() <= limit {
            return;
        }

        self.obscured.push((old_pos, r.run()))
""", """        if let (Some(limit), Code::Reference(r)) =
            (self.technique.config.wams.insert_only_below_length, code)
        {
            if r.run() > limit {
                self.obscured.push((old_pos, r.run()))
            }
        }
"""))

def sh(c, t=900, **k):
    try:
        p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **k)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""
def main(ids):
    W = "/tmp/rf0"
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    sh("mkdir %s/repo && cp -a /repo/. %s/repo/ && mkdir %s/verif && cd %s && cp -a check.py props.py vx overlay harness tools known_findings.txt MANIFEST.json %s/verif/ && mkdir %s/verif/build && cp -a build/target build/htarget build/rtarget %s/verif/build/" % (W, W, W, V, W, W, W))
    sh("sed -i 's#/repo/lib#%s/repo/lib#' %s/verif/harness/Cargo.toml" % (W, W))
    env = dict(os.environ, CARGO_TARGET_DIR=W + "/repo/target", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never")
    venv = dict(os.environ, VP_REPO=W + "/repo", VERIF_SEED="1", VERIF_TIER="quick")
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        checks, edits = R[i]
        files = {}
        for f, a, b in edits:
            s = files.get(f) or open("/repo/" + f).read()
            if s.count(a) != 1: print(i, "EDIT DOES NOT APPLY", s.count(a), a[:60]); break
            files[f] = s.replace(a, b)
        else:
            for f, s in files.items(): open("%s/repo/%s" % (W, f), "w").write(s)
            rc, o = sh("cd %s/repo && timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 4 > ../log.txt 2>&1; python3 /opt/vp/results.py ../out.json cargo:../log.txt" % W, 700, env=env)
            try: passed = set(json.load(open(W + "/out.json"))["passed"])
            except Exception: passed = set()
            if stable - passed:
                print(i, "TESTS FAIL" if passed else "DOES NOT COMPILE", open(W + "/log.txt").read()[-600:] if not passed else "")
            else:
                for c in checks.split():
                    rc, o = sh("cd %s/verif && python3 check.py %s" % (W, c), 900, env=venv)
                    ls = [l for l in o.strip().split("\n") if not l.startswith("KNOWN")]
                    print(i, c, "ok" if rc == 0 else "ALARM rc=%d" % rc, "|", " | ".join(x[:160] for x in ls), flush=True)
            for f in files: shutil.copy("/repo/" + f, "%s/repo/%s" % (W, f))
    shutil.rmtree(W, ignore_errors=True)
main(sys.argv[1:] or list(R))
