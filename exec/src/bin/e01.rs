//! E01 - contracts of the envelope header, on the real reader and writer.
use hugr_core::envelope::{EnvelopeConfig, EnvelopeFormat, EnvelopeHeader, MAGIC_NUMBERS, ZstdConfig, read_envelope};
use hugr_core::extension::ExtensionRegistry;
use hugr_core::package::Package;
use hx::{Ctx, ensure};
use std::io::Read;

const FORMATS: [(u8, EnvelopeFormat); 5] = [(1, EnvelopeFormat::Model), (2, EnvelopeFormat::ModelWithExtensions), (40, EnvelopeFormat::ModelText), (41, EnvelopeFormat::ModelTextWithExtensions), (63, EnvelopeFormat::PackageJson)];
const MAGIC: [u8; 8] = *b"HUGRiHJv";
/// delivers at most `k` bytes per call
struct Dribble<'a>(&'a [u8], usize);
impl Read for Dribble<'_> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.1).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }
fn want(b: &[u8]) -> Option<(EnvelopeFormat, bool)> {
    if b.len() < 10 || b[..8] != MAGIC { return None }
    let f = FORMATS.iter().find(|f| f.0 == b[8])?.1;
    (b[9] & !1 == 0b0100_0000).then_some((f, b[9] & 1 == 1))
}
fn read(b: &[u8]) -> Result<(), String> {
    for k in [1usize, 3, 64] {
        let mut r = Dribble(b, k);
        let got = EnvelopeHeader::read(&mut r);
        match (want(b), got) {
            (None, Err(_)) => {}
            (None, Ok(h)) => return Err(format!("accepted as {h:?}")),
            (Some(w), Err(e)) => return Err(format!("rejected ({e}), names {w:?}")),
            (Some((f, z)), Ok(h)) => {
                ensure!(h.format == f && h.zstd == z, "read as {h:?}, names {f:?} zstd {z}");
                ensure!(r.0.len() == b.len() - 10, "consumed {} bytes instead of 10", b.len() - r.0.len());
                let c = h.config();
                ensure!(c.format == f && c.zstd.is_some() == z, "configuration {c:?}");
            }
        }
    }
    Ok(())
}
fn hx(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn main() {
    let mut c = Ctx::from_env("E01");
    c.case("magic", || "MAGIC_NUMBERS".into(), || { ensure!(MAGIC_NUMBERS == MAGIC, "changed"); Ok(()) });
    for (byte, f) in FORMATS { for zstd in [false, true] { for tail in 0..4usize {
        c.case("write_read", || format!("{f:?} zstd {zstd} followed by {tail} bytes"), || {
            let h = EnvelopeHeader { format: f, zstd };
            let mut buf = vec![];
            h.write(&mut buf).map_err(|e| e.to_string())?;
            ensure!(buf.len() == 10, "{} bytes written", buf.len());
            ensure!(buf[..8] == MAGIC && buf[8] == byte && buf[9] == 0x40 | zstd as u8, "written as {}", hx(&buf));
            buf.extend(vec![0x41; tail]);
            let mut r = &buf[..];
            let g = EnvelopeHeader::read(&mut r).map_err(|e| format!("own header rejected: {e}"))?;
            ensure!(g == h, "read back as {g:?}");
            ensure!(r.len() == tail, "consumed {} bytes", buf.len() - r.len());
            Ok(()) });
    } } }
    for a in 0..=255u8 { for b in 0..=255u8 {
        let mut v = MAGIC.to_vec(); v.extend([a, b, 1, 2, 3]);
        c.case("read", || hx(&v), || read(&v));
    } }
    let base: Vec<u8> = [&MAGIC[..], &[63, 0x41, 9, 9]].concat();
    for n in 0..=12 { c.case("read", || format!("first {n} bytes"), || read(&base[..n])); }
    for i in 0..8 { for x in 0..=255u8 { let mut v = base.clone(); v[i] = x; c.case("read", || hx(&v), || read(&v)); } }
    for _ in 0..c.n(3000, 300000) {
        let mut v: Vec<u8> = (0..c.rng.below(14)).map(|_| c.rng.next() as u8).collect();
        for i in 0..v.len().min(8) { if c.rng.below(8) != 0 { v[i] = MAGIC[i]; } }
        if v.len() > 8 && c.rng.bool() { v[8] = FORMATS[c.rng.below(5)].0; }
        c.case("read", || hx(&v), || read(&v));
    }
    // the whole reader: a rejected header is an error there too, and nothing panics
    let reg = ExtensionRegistry::default();
    for _ in 0..c.n(400, 20000) {
        let mut v: Vec<u8> = (0..8 + c.rng.below(40)).map(|_| c.rng.next() as u8).collect();
        v[..8].copy_from_slice(&MAGIC);
        if v.len() > 8 { v[8] = FORMATS[c.rng.below(5)].0; } if v.len() > 9 { v[9] = 0x40 | (c.rng.below(2) as u8); if c.rng.below(4) == 0 { v[9] ^= 1 << c.rng.below(8); } }
        c.case("read_envelope", || hx(&v), || {
            let r = read_envelope(std::io::BufReader::new(&v[..]), &reg);
            if want(&v).is_none() { ensure!(r.is_err(), "accepted"); }
            Ok(()) });
    }
    // configurations name the header that is written in front of the payload
    let pkg = Package::default();
    for (byte, f) in FORMATS { for z in [None, Some(ZstdConfig::default_level()), Some(ZstdConfig::new(1)), Some(ZstdConfig::new(0))] {
        c.case("config", || format!("{f:?} {z:?}"), || {
            let cfg = match z { Some(z) => EnvelopeConfig::new(f).with_zstd(z), None => EnvelopeConfig::new(f) };
            let mut buf = vec![];
            pkg.store(&mut buf, cfg).map_err(|e| e.to_string())?;
            ensure!(buf.len() >= 10 && buf[..8] == MAGIC && buf[8] == byte && buf[9] == 0x40 | z.is_some() as u8, "header written as {}", hx(&buf[..buf.len().min(10)]));
            let (d, p) = read_envelope(std::io::BufReader::new(&buf[..]), &reg).map_err(|e| format!("own envelope rejected: {e}"))?;
            ensure!(d.header() == EnvelopeHeader { format: f, zstd: z.is_some() }, "described as {:?}", d.header());
            ensure!(p == pkg, "different package");
            Ok(()) });
    } }
    c.case("config", || "text()".into(), || { let t = EnvelopeConfig::text(); ensure!(t.format.ascii_printable() && t.zstd.is_none(), "{t:?}"); Ok(()) });
    for (_, f) in FORMATS { c.case("config", || format!("{f:?}"), || { ensure!(f.ascii_printable() == !matches!(f, EnvelopeFormat::Model | EnvelopeFormat::ModelWithExtensions), "ascii"); ensure!(f.model_version().is_none() == (f == EnvelopeFormat::PackageJson), "version"); Ok(()) }); }
    c.finish()
}
