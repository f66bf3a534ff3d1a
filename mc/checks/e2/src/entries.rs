//! E01: single entries and sequences of entries, in memory and streamed.
use std::io::{self, BufReader, BufWriter, Read, Write};

use e2store::e2store::{
    memory::E2StoreMemory,
    stream::{E2StoreStreamReader, E2StoreStreamWriter},
    types::{Entry, Header, VersionEntry},
};
use vc::{check, check_eq, Ch, Ctx, Res};

pub type Item = (u16, Vec<u8>);

/// The encoding: type most significant byte first, length and reserved least significant first.
pub fn encode(items: &[Item]) -> Vec<u8> {
    let mut out = vec![];
    for (kind, value) in items {
        out.extend(kind.to_be_bytes());
        out.extend((value.len() as u32).to_le_bytes());
        out.extend([0, 0]);
        out.extend(value);
    }
    out
}

/// The entries a file starts with and whether nothing else follows.
fn decode(file: &[u8]) -> (Vec<Item>, bool) {
    let mut rest = file;
    let mut items = vec![];
    while !rest.is_empty() {
        if rest.len() < 8 || rest[6..8] != [0, 0] {
            return (items, false);
        }
        let n = u32::from_le_bytes(rest[2..6].try_into().unwrap()) as usize;
        if rest.len() - 8 < n {
            return (items, false);
        }
        items.push((u16::from_be_bytes([rest[0], rest[1]]), rest[8..8 + n].to_vec()));
        rest = &rest[8 + n..];
    }
    (items, true)
}

/// The length announced by the first entry that does not fit.
fn announced(file: &[u8]) -> u32 {
    let rest = &file[encode(&decode(file).0).len()..];
    rest.get(2..6).map_or(0, |b| u32::from_le_bytes(b.try_into().unwrap()))
}

pub fn entry(i: &Item) -> Entry {
    Entry { header: Header { type_: i.0, length: i.1.len() as u32, reserved: 0 }, value: i.1.clone() }
}

/// Gives or takes at most `step` bytes at a time.
struct Slow<T> {
    inner: T,
    step: usize,
}
impl<T: Read> Read for Slow<T> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.step);
        self.inner.read(&mut buf[..n])
    }
}
impl Write for Slow<&mut Vec<u8>> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = buf.len().min(self.step);
        self.inner.extend(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn in_memory(file: &[u8], ch: &mut Ch) -> Res {
    let (items, whole) = decode(file);
    let got = E2StoreMemory::deserialize(file);
    ch.evals(2);
    check_eq!(got.is_ok(), whole, "acceptance in memory of {}", spec::short(file));
    if let Ok(got) = got {
        check!(got.entries == items.iter().map(entry).collect::<Vec<_>>(), "entries in memory of {}", spec::short(file));
    }
    let one = Entry::deserialize(file);
    check_eq!(one.is_ok(), whole && items.len() == 1, "acceptance as one entry of {}", spec::short(file));
    if let Ok(one) = one {
        check!(one == entry(&items[0]), "the entry in {}", spec::short(file));
    }
    ch.outcome(&(whole, items.len()));
    Ok(())
}

fn streamed(file: &[u8], step: usize, room: usize, ch: &mut Ch) -> Res {
    let (items, whole) = decode(file);
    let mut r = E2StoreStreamReader::new(BufReader::with_capacity(room, Slow { inner: file, step })).unwrap();
    for (k, i) in items.iter().enumerate() {
        let got = r.next_entry();
        ch.eval();
        check!(matches!(&got, Ok(e) if *e == entry(i)), "entry {k} streamed from {} by {step}: {got:?}", spec::short(file));
    }
    ch.eval();
    check!(r.next_entry().is_err(), "a further entry after {} in {}", items.len(), spec::short(file));
    ch.outcome(&(whole, items.len()));
    Ok(())
}

fn write(items: &[Item], step: usize, room: usize, ch: &mut Ch) -> Res {
    let want = encode(items);
    let mut out = vec![];
    {
        let mut w = E2StoreStreamWriter::new(BufWriter::with_capacity(room, Slow { inner: &mut out, step })).unwrap();
        for i in items {
            check!(w.append_entry(&Entry::new(i.0, i.1.clone())).is_ok(), "appending");
        }
        check!(w.flush().is_ok(), "flushing");
    }
    ch.eval();
    check!(out == want, "streamed {} want {}", spec::short(&out), spec::short(&want));
    Ok(())
}

const KINDS: [u16; 4] = [0x6532, 0x0000, 0xffff, 0x0102];

fn value(k: usize) -> Vec<u8> {
    match k {
        0 => vec![],
        1 => vec![0],
        // A value that is itself an entry, and one that looks like the head of a longer entry.
        2 => vec![1, 2, 0, 0, 0, 0, 0, 0],
        3 => vec![1, 2, 3, 0, 0, 0, 0],
        4 => spec::ramp(3, 255),
        5 => spec::ramp(4, 256),
        _ => spec::ramp(5, 65_537),
    }
}

pub fn e01(ctx: &Ctx) {
    ctx.explore("sequences", |ch| {
        let n = ch.pick(ctx.b(4, 5));
        let items: Vec<Item> = (0..n).map(|_| (*ch.choose(&KINDS[..ctx.b(3, 4)]), value(ch.pick(if n < 3 { 7 } else { ctx.b(5, 4) })))).collect();
        let file = encode(&items);
        let entries: Vec<Entry> = items.iter().map(|i| Entry::new(i.0, i.1.clone())).collect();
        for (e, i) in entries.iter().zip(&items) {
            check!(*e == entry(i), "a new entry");
            check_eq!(e.length(), 8 + i.1.len(), "length of an entry");
            check!(e.serialize().unwrap() == encode(&[i.clone()]), "encoding of an entry");
        }
        let m = E2StoreMemory { entries };
        check_eq!(m.length(), file.len(), "length of the file");
        let mut buf = vec![0xaa; file.len()];
        check!(m.write(&mut buf).is_ok() && buf == file, "file written");
        check!(Vec::<u8>::try_from(m).unwrap() == file, "file encoded");
        ch.evals(3);
        in_memory(&file, ch)?;
        streamed(&file, usize::MAX, 8192, ch)?;
        write(&items, usize::MAX, 8192, ch)?;
        ch.state(&items);
        Ok(())
    });
    ctx.explore("read and write sizes", |ch| {
        let step = *ch.choose(&[1usize, 2, 3, 5, 7, 8, 9, 16]);
        let room = *ch.choose(&[1usize, 2, 7, 8, 9, 32]);
        let n = ch.pick(ctx.b(3, 4));
        let items: Vec<Item> = (0..n).map(|_| (*ch.choose(&KINDS[2..]), value(ch.pick(5)))).collect();
        streamed(&encode(&items), step, room, ch)?;
        write(&items, step, room, ch)?;
        ch.state(&(step, room, items));
        Ok(())
    });
    ctx.explore("cuts", |ch| {
        let n = 1 + ch.pick(ctx.b(2, 3));
        let items: Vec<Item> = (0..n).map(|_| (KINDS[3], value(ch.pick(4)))).collect();
        let mut file = encode(&items);
        file.truncate(ch.pick(file.len() + 1));
        in_memory(&file, ch)?;
        streamed(&file, *ch.choose(&[usize::MAX, 1]), 8192, ch)?;
        ch.state(&file);
        Ok(())
    });
    ctx.explore("changed heads", |ch| {
        let n = 1 + ch.pick(ctx.b(2, 3));
        let items: Vec<Item> = (0..n).map(|_| (KINDS[3], value(ch.pick(4)))).collect();
        let mut file = encode(&items);
        let which = ch.pick(n);
        let at = encode(&items[..which]).len() + ch.pick(8);
        let was = file[at];
        for b in 0..=255u8 {
            file[at] = b;
            in_memory(&file, ch)?;
            // A stream makes room for what is announced, which is kept small here.
            if announced(&file) < 1 << 26 {
                streamed(&file, usize::MAX, 8192, ch)?;
            }
        }
        file[at] = was;
        ch.state(&(at, &file));
        Ok(())
    });
    ctx.explore("announced lengths", |ch| {
        let have = *ch.choose(&[0usize, 1, 7, 8, 9]);
        let said = *ch.choose(&[0u32, 1, 6, 7, 8, 9, 10, 16, 0x7fff_ffff, 0x8000_0000, 0xffff_fff6, 0xffff_fff7, 0xffff_fff8, 0xffff_fffe, 0xffff_ffff]);
        let before = ch.pick(2);
        let mut file = encode(&vec![(KINDS[3], vec![9; 8]); before]);
        file.extend([3, 0]);
        file.extend(said.to_le_bytes());
        file.extend([0, 0]);
        file.extend(vec![0; have]);
        in_memory(&file, ch)?;
        ch.state(&file);
        Ok(())
    });
    ctx.range("reserved field", ctx.b(4096, 65536), |i, ch| {
        // In the quick tier: all values of each byte and a mixed pattern.
        let reserved = if i < 256 { i as u16 } else if i < 512 { ((i - 256) as u16) << 8 } else { i as u16 };
        let mut file = encode(&[(KINDS[0], vec![]), (KINDS[3], vec![1, 2, 3])]);
        for at in [6, 14] {
            file[at..at + 2].copy_from_slice(&reserved.to_le_bytes());
            in_memory(&file, ch)?;
            streamed(&file, usize::MAX, 8192, ch)?;
            file[at..at + 2].copy_from_slice(&[0, 0]);
        }
        let h = Header::deserialize(&[1, 2, 3, 0, 0, 0, reserved as u8, (reserved >> 8) as u8]);
        check_eq!(h.is_ok(), reserved == 0, "acceptance of a head");
        ch.state(&reserved);
        Ok(())
    });
    ctx.explore("version", |ch| {
        let kind = *ch.choose(&[0x6532u16, 0x3265, 0x6533, 0x6632, 0]);
        let len = ch.pick(3);
        let reserved = *ch.choose(&[0u16, 1, 256]);
        let e = Entry { header: Header { type_: kind, length: len as u32, reserved }, value: vec![0; len] };
        let got = VersionEntry::try_from(&e);
        check_eq!(got.is_ok(), kind == 0x6532 && len == 0 && reserved == 0, "acceptance of {e:?} as a version");
        let v = VersionEntry::default();
        check!(Entry::from(&v) == entry(&(0x6532, vec![])), "the version entry");
        ch.state(&(kind, len, reserved));
        ch.eval();
        Ok(())
    });
}
