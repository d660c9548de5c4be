//! A reader of .fmp12 images of its own, strict where the program is lenient,
//! to judge the images that a compile writes.

pub const BLOCK: usize = 4096;

#[derive(Clone, Debug, PartialEq)]
pub enum Key {
    None,
    Num(usize),
    Long(Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct Item {
    pub path: Vec<usize>,
    /// A directory is entered here (path includes it), nothing is stored.
    pub push: bool,
    pub key: Key,
    pub data: Vec<u8>,
}

struct R<'a> {
    b: &'a [u8],
    at: usize,
}
impl<'a> R<'a> {
    fn n(&mut self, n: usize) -> Result<&'a [u8], String> {
        let r = self.b.get(self.at..self.at + n).ok_or(format!("a chunk at {} runs over the end of its block", self.at))?;
        self.at += n;
        Ok(r)
    }
    fn u8(&mut self) -> Result<usize, String> {
        Ok(self.n(1)?[0] as usize)
    }
    fn u16(&mut self) -> Result<usize, String> {
        let b = self.n(2)?;
        Ok((b[0] as usize) << 8 | b[1] as usize)
    }
    /// Two bytes for a number of 128 and more.
    fn num2(&mut self) -> Result<usize, String> {
        Ok(128 + self.n(2)?[1] as usize)
    }
}

fn be32(b: &[u8]) -> usize {
    b.iter().fold(0, |a, x| a << 8 | *x as usize)
}

/// The items of an image in the order of its chain of blocks.
pub fn unpack(d: &[u8]) -> Result<Vec<Item>, String> {
    if d.is_empty() || d.len() % BLOCK != 0 {
        return Err(format!("{} bytes are not a whole number of blocks", d.len()));
    }
    let count = d.len() / BLOCK;
    if count < 3 {
        return Err(format!("{count} blocks are not enough for an image"));
    }
    if d[14..21] != *b"\xc0HBAM7\0" || d[3072..3080] != *b"EAFI:RC\r" || d[4088..4096] != *b"\rCR:IFAE" {
        return Err("the header block lacks its marks".into());
    }
    if be32(&d[BLOCK + 8..BLOCK + 12]) != count - 1 {
        return Err(format!("the image has {} blocks after its header and says {}", count - 1, be32(&d[BLOCK + 8..BLOCK + 12])));
    }
    let mut items = vec![];
    let mut seen = vec![false; count];
    let mut i = 2;
    while i != 0 {
        if i >= count || seen[i] || i == 1 {
            return Err(format!("the chain of blocks leads to block {i} of {count}, {}", if i < count { "which it cannot" } else { "which does not exist" }));
        }
        seen[i] = true;
        let b = &d[i * BLOCK..(i + 1) * BLOCK];
        block(b, &mut items).map_err(|e| format!("block {i}: {e}"))?;
        i = be32(&b[8..12]);
    }
    Ok(items)
}

fn block(b: &[u8], items: &mut Vec<Item>) -> Result<(), String> {
    let mut r = R { b, at: 20 };
    let mut path: Vec<usize> = vec![];
    /* The rest of a block is empty. */
    let end = b.iter().rposition(|x| *x != 0).map_or(0, |p| p + 1);
    while r.at < end {
        let c = r.u8()?;
        let mut push = false;
        let mut key = Key::None;
        let mut data: &[u8] = &[];
        match c {
            0x00 => {
                r.n(1)?;
            }
            0x01..=0x05 => {
                key = Key::Num(r.u8()?);
                data = r.n(if c == 1 { 1 } else { 2 * (c - 1) })?;
            }
            0x06 => {
                key = Key::Num(r.u8()?);
                let n = r.u8()?;
                data = r.n(n)?;
            }
            0x07 => {
                key = Key::Num(r.u8()?);
                let n = r.u16()?;
                data = r.n(n)?;
            }
            0x08 => data = r.n(2)?,
            0x09..=0x0D => {
                key = Key::Num(r.num2()?);
                data = r.n(if c == 9 { 1 } else { 2 * (c - 9) })?;
            }
            0x0E => {
                key = Key::Num(r.num2()?);
                let n = r.u8()?;
                data = r.n(n)?;
            }
            0x19..=0x1D => {
                let n = r.u8()?;
                data = r.n(n)?;
                let skip = if c == 0x19 { 1 } else { 2 * (c - 0x19) };
                if r.n(skip)?.iter().any(|x| *x != 0) {
                    return Err(format!("rubbish after the data of the chunk at {}", r.at));
                }
            }
            0x1E => {
                let n = r.u8()?;
                key = Key::Long(r.n(n)?.to_vec());
                let n = r.u8()?;
                data = r.n(n)?;
            }
            0x1F => {
                let n = r.u8()?;
                key = Key::Long(r.n(n)?.to_vec());
                let n = r.u16()?;
                data = r.n(n)?;
            }
            0x20 => {
                path.push(r.u8()?);
                push = true;
            }
            0x28 => {
                path.push(r.num2()?);
                push = true;
            }
            0x3D | 0x40 => {
                path.pop().ok_or(format!("more directories closed than opened at {}", r.at))?;
                continue;
            }
            0x80 => continue,
            c => return Err(format!("unknown code {c:#x} at {}", r.at - 1)),
        }
        if c == 0 {
            continue;
        }
        items.push(Item { path: path.clone(), push, key, data: data.to_vec() });
    }
    if !path.is_empty() {
        return Err(format!("directory {path:?} is not closed"));
    }
    Ok(())
}

/// Sort key of a name: two bytes per character; None: the character has no known code.
pub fn letter(c: char) -> Option<[u8; 2]> {
    Some(match c.to_ascii_lowercase() {
        ' ' => [0x02, 0x0a],
        '_' => [0x02, 0x1d],
        'a' => [0x12, 0x0f],
        'b' => [0x12, 0x25],
        'c' => [0x12, 0x3d],
        'd' => [0x12, 0x50],
        'e' => [0x12, 0x6b],
        'f' => [0x12, 0xa3],
        'g' => [0x12, 0xb0],
        'h' => [0x12, 0xd3],
        'i' => [0x12, 0xec],
        'j' => [0x13, 0x05],
        'k' => [0x13, 0x1e],
        'l' => [0x13, 0x30],
        'm' => [0x13, 0x5f],
        'n' => [0x13, 0x6d],
        'o' => [0x13, 0x8e],
        'p' => [0x13, 0xb3],
        'q' => [0x13, 0xc8],
        'r' => [0x13, 0xda],
        's' => [0x14, 0x10],
        't' => [0x14, 0x33],
        'u' => [0x14, 0x53],
        'v' => [0x14, 0x7b],
        'w' => [0x14, 0x8d],
        'x' => [0x14, 0x97],
        'y' => [0x14, 0x9c],
        'z' => [0x14, 0xad],
        _ => return None,
    })
}
/// Does `key` start with the sort key of `name` and hold only zeros after it?
pub fn is_sort_key(key: &[u8], name: &str) -> bool {
    let n = name.chars().count();
    key.len() >= 2 * n
        && name.chars().zip(key.chunks(2)).all(|(c, k)| letter(c).is_none_or(|l| k == l))
        && key[2 * n..].iter().all(|b| *b == 0)
        && key.len() > 2 * n
}
