//! Turns the files of a cleanly stopped server into those that the previous storage engine ("v1", 0.8.0-beta.1 to
//! beta.3) would have left behind for the same history: same events, same rows, the old framing.
use std::collections::BTreeMap;

fn crc64(b: &[u8]) -> u64 {
    // CRC-64/XZ
    let mut c = !0u64;
    for x in b {
        c ^= *x as u64;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xC96C_5795_D787_0F42 } else { c >> 1 };
        }
    }
    !c
}
fn crc32(b: &[u8]) -> u32 {
    // CRC-32/ISO-HDLC
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}

struct Rd<'a> {
    b: &'a [u8],
    at: usize,
}
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let r = self.b.get(self.at..self.at.checked_add(n)?)?;
        self.at += n;
        Some(r)
    }
    fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|x| x[0])
    }
    fn u64(&mut self) -> Option<u64> {
        self.take(8).map(|x| u64::from_le_bytes(x.try_into().unwrap()))
    }
    fn cell(&mut self) -> Option<()> {
        match self.u8()? {
            0 => {}
            1 => {
                self.take(1)?;
            }
            2..=11 => {
                self.take(8)?;
            }
            12 | 13 => {
                let n = self.u64()?;
                self.take(n as usize)?;
            }
            14 => {
                for _ in 0..self.u64()? {
                    self.cell()?;
                }
            }
            _ => return None,
        }
        Some(())
    }
    fn pk(&mut self, tag: u8) -> Option<()> {
        if tag < 2 {
            self.take(8)?;
        } else {
            let n = self.u64()?;
            self.take(n as usize)?;
        }
        Some(())
    }
}

const SERVER: u64 = 1 << 63;
const REOPENED: u64 = 1;

fn header(v2: &[u8], class: u8, spec: u8) -> Vec<u8> {
    let mut h = v2[..64].to_vec();
    h[24..32].fill(0);
    h[36] = class;
    h[37] = spec;
    h[38..40].fill(0);
    h
}

fn tlog(id: &mut u64, md: u64, payload: &[u8], out: &mut Vec<u8>) {
    out.extend((*id as u128).to_le_bytes());
    out.extend(md.to_le_bytes());
    out.extend(if payload.is_empty() { 0 } else { crc32(payload) }.to_le_bytes());
    out.extend((payload.len() as u64).to_le_bytes());
    out.extend(payload);
    *id += 1;
}

type Users = BTreeMap<Vec<u8>, Vec<u8>>;

fn gns(f: &[u8], reopen: &[bool]) -> Option<(Vec<u8>, Users)> {
    let mut r = Rd { b: f, at: 64 };
    let mut out = header(f, 0, 0);
    let mut users = Users::new();
    let mut id = 0;
    let mut n = 0;
    while r.at < f.len() {
        r.take(16)?;
        let md = r.u64()?;
        if md & SERVER == 0 {
            // (closed or reopened)
            r.take(40)?;
            continue;
        }
        r.u64()?;
        let n_ = r.u64()?;
        let pl = r.take(n_ as usize)?;
        let opc = md & 0xFFFF;
        match opc {
            0..=7 => {
                let mut p = (opc as u16).to_le_bytes().to_vec();
                p.extend(pl);
                if n > 0 && reopen[n % reopen.len()] {
                    tlog(&mut id, 0, &[], &mut out);
                    // (the same number for both)
                    id -= 1;
                    tlog(&mut id, REOPENED, &[], &mut out);
                }
                n += 1;
                tlog(&mut id, SERVER, &p, &mut out);
            }
            8 | 9 => {
                let mut q = Rd { b: pl, at: 0 };
                let (u, p) = (q.u64()?, q.u64()?);
                q.u64()?;
                users.insert(q.take(u as usize)?.to_vec(), q.take(p as usize)?.to_vec());
            }
            10 => {
                let mut q = Rd { b: pl, at: 0 };
                let u = q.u64()?;
                users.remove(q.take(u as usize)?);
            }
            _ => return None,
        }
    }
    tlog(&mut id, 0, &[], &mut out);
    Some((out, users))
}

fn model(f: &[u8], reopen: &[bool]) -> Option<Vec<u8>> {
    let mut r = Rd { b: f, at: 64 };
    let mut out = header(f, 1, 1);
    let mut nb = 0;
    while r.at < f.len() {
        r.take(16)?;
        let md = r.u64()?;
        if md & SERVER == 0 {
            r.take(40)?;
            continue;
        }
        if nb > 0 && reopen[nb % reopen.len()] {
            out.extend([0xFC, 0xFB]);
        }
        nb += 1;
        let expected = r.u64()?;
        let tag = r.u8()?;
        let (schema, cols) = (r.u64()?, r.u64()?);
        let start = out.len();
        out.push(0xFE);
        out.push(tag);
        out.extend(expected.to_le_bytes());
        out.extend(schema.to_le_bytes());
        out.extend(cols.to_le_bytes());
        let mut n = 0;
        while n < expected {
            let at = r.at;
            let ty = r.u8()?;
            if ty == 3 {
                break;
            }
            r.u64()?;
            r.pk(tag)?;
            if ty != 0 {
                for _ in 0..cols {
                    r.cell()?;
                }
            }
            out.extend(&f[at..r.at]);
            n += 1;
        }
        if r.u64()? != n {
            return None;
        }
        r.u64()?;
        out.push(0xFD);
        out.extend(n.to_le_bytes());
        let ck = crc64(&out[start..]);
        out.extend(ck.to_le_bytes());
    }
    out.push(0xFC);
    Some(out)
}

fn sysdb(v2: &[u8], users: &Users) -> Vec<u8> {
    fn key(o: &mut Vec<u8>, k: &[u8], d: u8) {
        o.extend((k.len() as u64).to_le_bytes());
        o.push(d);
        o.extend(k);
    }
    fn len(o: &mut Vec<u8>, n: usize) {
        o.extend((n as u64).to_le_bytes());
    }
    let mut o = header(v2, 2, 2);
    len(&mut o, 2);
    key(&mut o, b"auth", 0x0F);
    len(&mut o, 1);
    key(&mut o, b"users", 0x0F);
    len(&mut o, users.len());
    for (u, p) in users {
        key(&mut o, u, 0x0E);
        len(&mut o, 1);
        o.push(0x0C);
        len(&mut o, p.len());
        o.extend(p);
    }
    key(&mut o, b"sys", 0x0F);
    len(&mut o, 2);
    key(&mut o, b"sc", 0x05);
    o.extend(3u64.to_le_bytes());
    key(&mut o, b"sv", 0x05);
    o.extend(0u64.to_le_bytes());
    o
}

/// None: the files are not those of a server that was stopped cleanly
pub fn downgrade(img: &BTreeMap<String, Option<Vec<u8>>>, reopen: &[bool]) -> Option<BTreeMap<String, Option<Vec<u8>>>> {
    let mut out = BTreeMap::new();
    let g = img.get("gns.db-tlog")?.as_ref()?;
    if img.contains_key("sys.db") || img.iter().any(|(p, c)| p.contains(".db-") && c.as_ref().map_or(false, |c| c.len() < 64)) {
        return None;
    }
    for (p, c) in img {
        let c = match c {
            Some(c) if p.ends_with("db-btlog") && p.starts_with("data/") => Some(model(c, reopen)?),
            Some(c) if p == "gns.db-tlog" => {
                let (f, users) = gns(c, reopen)?;
                out.insert("sys.db".to_string(), Some(sysdb(g, &users)));
                Some(f)
            }
            c => c.clone(),
        };
        out.insert(p.clone(), c);
    }
    Some(out)
}
