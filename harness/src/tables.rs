// written by tools/tables.py
use crate::h1::Ctx;
pub static CASES: [Ctx; 315] = [
    Ctx { mode: 0, boundary: b"", lens: &[None], text: b"" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x0d\x0a\x20\x09" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x78" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x32" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x32\x33" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x32" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x32\x33" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x32\x33\x34" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x32" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x32\x33" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x32" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x32\x33" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x32\x33\x34" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x31\x20" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x31\x20\x32" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x31\x20\x32\x30" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x31\x20\x32\x30\x30" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x31\x20\x32\x30\x30\x20" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x31\x20\x32\x30\x30\x20\x4f" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x31\x20\x32\x30\x30\x20\x4f\x4b\x0d" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x62" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x61\x3a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x61\x3a\x20" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x61\x3a\x20\x76" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x61\x3a\x20\x22" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x61\x3a\x20\x22\x71\x5c" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x61\x3a\x20\x76\x0d" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x61\x3a\x20\x76\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x61\x3a\x20\x76\x0d\x0a\x20" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x61\x3a\x20\x76\x0d\x0a\x0d" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x31\x20\x32\x30\x30\x20\x4f\x4b\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x35" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x31\x32\x33\x34\x35\x36\x37" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x31\x32\x33\x34\x35\x36\x37\x38" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x35\x3b" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x35\x3b\x61" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x35\x3b\x61\x20" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x35\x3b\x41" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x35\x3b\x61\x3d" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x35\x3b\x61\x3d\x76" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x35\x3b\x61\x3d\x22" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x35\x3b\x61\x3d\x22\x5c" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x35\x3b\x61\x0d" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x35\x0d" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x35\x3b\x61\x3b" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x33\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x33\x0d\x0a\x61\x62\x63" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x33\x0d\x0a\x61\x62\x63\x0d" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x32\x0d\x0a\x61\x62\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x30" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x30\x0d" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x30\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x30\x3b\x61" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x30\x3b\x61\x0d" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x30\x3b\x61\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x30\x0d\x0a\x41\x3a\x62\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x30\x0d\x0a\x0d" },
    Ctx { mode: 3, boundary: b"", lens: &[None], text: b"" },
    Ctx { mode: 3, boundary: b"", lens: &[None], text: b"\x2d" },
    Ctx { mode: 3, boundary: b"", lens: &[None], text: b"\x2d\x2d" },
    Ctx { mode: 3, boundary: b"", lens: &[None], text: b"\x2d\x2d" },
    Ctx { mode: 3, boundary: b"", lens: &[None], text: b"\x2d\x2d\x0d" },
    Ctx { mode: 3, boundary: b"", lens: &[None], text: b"\x2d\x2d\x2d" },
    Ctx { mode: 3, boundary: b"", lens: &[None], text: b"\x2d\x2d\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42\x0d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42\x43\x42", lens: &[None], text: b"" },
    Ctx { mode: 3, boundary: b"\x42\x43\x42", lens: &[None], text: b"\x2d" },
    Ctx { mode: 3, boundary: b"\x42\x43\x42", lens: &[None], text: b"\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42\x43\x42", lens: &[None], text: b"\x2d\x2d\x42\x43\x42" },
    Ctx { mode: 3, boundary: b"\x42\x43\x42", lens: &[None], text: b"\x2d\x2d\x42\x43\x42\x0d" },
    Ctx { mode: 3, boundary: b"\x42\x43\x42", lens: &[None], text: b"\x2d\x2d\x42\x43\x42\x2d" },
    Ctx { mode: 3, boundary: b"\x42\x43\x42", lens: &[None], text: b"\x2d\x2d\x42\x43\x42\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42\x2d", lens: &[None], text: b"" },
    Ctx { mode: 3, boundary: b"\x42\x2d", lens: &[None], text: b"\x2d" },
    Ctx { mode: 3, boundary: b"\x42\x2d", lens: &[None], text: b"\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42\x2d", lens: &[None], text: b"\x2d\x2d\x42\x2d" },
    Ctx { mode: 3, boundary: b"\x42\x2d", lens: &[None], text: b"\x2d\x2d\x42\x2d\x0d" },
    Ctx { mode: 3, boundary: b"\x42\x2d", lens: &[None], text: b"\x2d\x2d\x42\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42\x2d", lens: &[None], text: b"\x2d\x2d\x42\x2d\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a\x64\x0d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x0d\x0a\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x78\x79\x0d\x0a\x2d\x2d\x42" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x78\x79\x0d\x0a\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x78\x79\x0d\x0a\x2d\x2d\x42\x2d" },
    Ctx { mode: 3, boundary: b"\x42\x43\x42", lens: &[None], text: b"\x2d\x2d\x42\x43\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42\x43\x42", lens: &[None], text: b"\x2d\x2d\x42\x43\x42\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a\x64\x0d" },
    Ctx { mode: 3, boundary: b"\x42\x43\x42", lens: &[None], text: b"\x2d\x2d\x42\x43\x42\x0d\x0a\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42\x43\x42", lens: &[None], text: b"\x2d\x2d\x42\x43\x42\x0d\x0a\x0d\x0a\x0d\x0a\x2d" },
    Ctx { mode: 3, boundary: b"\x42\x43\x42", lens: &[None], text: b"\x2d\x2d\x42\x43\x42\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42\x43\x42", lens: &[None], text: b"\x2d\x2d\x42\x43\x42\x0d\x0a\x0d\x0a\x78\x79\x0d\x0a\x2d\x2d\x42\x43\x42" },
    Ctx { mode: 3, boundary: b"\x42\x43\x42", lens: &[None], text: b"\x2d\x2d\x42\x43\x42\x0d\x0a\x0d\x0a\x78\x79\x0d\x0a\x2d\x2d\x42\x43" },
    Ctx { mode: 3, boundary: b"\x42\x43\x42", lens: &[None], text: b"\x2d\x2d\x42\x43\x42\x0d\x0a\x0d\x0a\x78\x79\x0d\x0a\x2d\x2d\x42\x43\x42\x2d" },
    Ctx { mode: 3, boundary: b"\x2d\x42", lens: &[None], text: b"\x2d\x2d\x2d\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x2d\x42", lens: &[None], text: b"\x2d\x2d\x2d\x42\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a\x64\x0d" },
    Ctx { mode: 3, boundary: b"\x2d\x42", lens: &[None], text: b"\x2d\x2d\x2d\x42\x0d\x0a\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x2d\x42", lens: &[None], text: b"\x2d\x2d\x2d\x42\x0d\x0a\x0d\x0a\x0d\x0a\x2d" },
    Ctx { mode: 3, boundary: b"\x2d\x42", lens: &[None], text: b"\x2d\x2d\x2d\x42\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x2d\x42", lens: &[None], text: b"\x2d\x2d\x2d\x42\x0d\x0a\x0d\x0a\x78\x79\x0d\x0a\x2d\x2d\x2d\x42" },
    Ctx { mode: 3, boundary: b"\x2d\x42", lens: &[None], text: b"\x2d\x2d\x2d\x42\x0d\x0a\x0d\x0a\x78\x79\x0d\x0a\x2d\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x2d\x42", lens: &[None], text: b"\x2d\x2d\x2d\x42\x0d\x0a\x0d\x0a\x78\x79\x0d\x0a\x2d\x2d\x2d\x42\x2d" },
    Ctx { mode: 3, boundary: b"\x61\x62", lens: &[None], text: b"\x2d\x2d\x61\x62\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x61\x62", lens: &[None], text: b"\x2d\x2d\x61\x62\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a\x64\x0d" },
    Ctx { mode: 3, boundary: b"\x61\x62", lens: &[None], text: b"\x2d\x2d\x61\x62\x0d\x0a\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x61\x62", lens: &[None], text: b"\x2d\x2d\x61\x62\x0d\x0a\x0d\x0a\x0d\x0a\x2d" },
    Ctx { mode: 3, boundary: b"\x61\x62", lens: &[None], text: b"\x2d\x2d\x61\x62\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x61\x62", lens: &[None], text: b"\x2d\x2d\x61\x62\x0d\x0a\x0d\x0a\x78\x79\x0d\x0a\x2d\x2d\x61\x62" },
    Ctx { mode: 3, boundary: b"\x61\x62", lens: &[None], text: b"\x2d\x2d\x61\x62\x0d\x0a\x0d\x0a\x78\x79\x0d\x0a\x2d\x2d\x61" },
    Ctx { mode: 3, boundary: b"\x61\x62", lens: &[None], text: b"\x2d\x2d\x61\x62\x0d\x0a\x0d\x0a\x78\x79\x0d\x0a\x2d\x2d\x61\x62\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(0)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(0)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x62" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(0)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(0)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(0)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d\x42" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(0)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(1)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(1)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x62\x63" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(1)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(1)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x0d\x0a\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(1)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x0d\x0a\x2d\x2d\x42" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(1)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x0d\x0a\x2d\x2d\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(2)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(2)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x62\x63" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(2)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x62\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(2)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x62\x0d\x0a\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(2)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x62\x0d\x0a\x2d\x2d\x42" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(2)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x62\x0d\x0a\x2d\x2d\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(3), None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(3), None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x62\x63" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(3), None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x62\x63\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(3), None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x62\x63\x0d\x0a\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(3), None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x62\x63\x0d\x0a\x2d\x2d\x42" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(3), None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x62\x63\x0d\x0a\x2d\x2d\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None, Some(2)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None, Some(2)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x62" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None, Some(2)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None, Some(2)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None, Some(2)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d\x42" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None, Some(2)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(1), Some(3)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(1), Some(3)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x62\x63" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(1), Some(3)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(1), Some(3)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x0d\x0a\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(1), Some(3)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x0d\x0a\x2d\x2d\x42" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(1), Some(3)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x0d\x0a\x2d\x2d\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(18446744073709551615)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(18446744073709551615)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x62\x0d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(9223372036854775808)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(9223372036854775808)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x62\x0d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(4294967297)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(4294967297)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x61\x62\x0d" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x61" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x25" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x25\x34" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x61\x3d" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x61\x3d\x62" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x61\x3d\x25" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x61\x3d\x25\x34" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x61\x3d\x62\x26" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x61\x26" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x61\x3f\x62\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x50\x4f\x53\x54\x20\x2f\x61\x3f\x62\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x50\x55\x54\x20\x2f\x61\x3f\x62\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x44\x45\x4c\x45\x54\x45\x20\x2f\x61\x3f\x62\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x43\x4f\x4e\x4e\x45\x43\x54\x20\x2f\x61\x3f\x62\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x4f\x50\x54\x49\x4f\x4e\x53\x20\x2f\x61\x3f\x62\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x45\x41\x44\x20\x2f\x61\x3f\x62\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x54\x52\x41\x43\x45\x20\x2f\x61\x3f\x62\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x50\x52\x49\x20\x2f\x61\x3f\x62\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x50\x41\x54\x43\x48\x20\x2f\x61\x3f\x62\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x20\x2f\x61\x3f\x62\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x20\x2f\x61\x3f\x62\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x20\x2f\x61\x3f\x62\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x53\x20\x2f\x61\x3f\x62\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x30\x0d\x0a\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x32\x2e\x30\x0d\x0a\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x30\x2e\x39\x0d\x0a\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x32\x2e\x33\x0d\x0a\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x32\x33\x2e\x34\x35\x36\x0d\x0a\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x39\x2e\x39\x39\x0d\x0a\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x30\x20\x32\x30\x30\x20\x4f\x4b\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a\x78\x78" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x32\x2e\x30\x20\x32\x30\x30\x20\x4f\x4b\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a\x78\x78" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x31\x20\x32\x30\x30\x20\x4f\x4b\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a\x78\x78" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x30\x2e\x39\x20\x32\x30\x30\x20\x4f\x4b\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a\x78\x78" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x32\x2e\x33\x20\x32\x30\x30\x20\x4f\x4b\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a\x78\x78" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x32\x33\x2e\x34\x35\x36\x20\x32\x30\x30\x20\x4f\x4b\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a\x78\x78" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x63\x63\x65\x70\x74\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x63\x63\x65\x70\x74\x2d\x43\x68\x61\x72\x73\x65\x74\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x63\x63\x65\x70\x74\x2d\x45\x6e\x63\x6f\x64\x69\x6e\x67\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x63\x63\x65\x70\x74\x2d\x4c\x61\x6e\x67\x75\x61\x67\x65\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x75\x74\x68\x6f\x72\x69\x7a\x61\x74\x69\x6f\x6e\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x48\x6f\x73\x74\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x55\x73\x65\x72\x2d\x41\x67\x65\x6e\x74\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x55\x70\x67\x72\x61\x64\x65\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x43\x6f\x6e\x6e\x65\x63\x74\x69\x6f\x6e\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x43\x6f\x6e\x74\x65\x6e\x74\x2d\x54\x79\x70\x65\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x43\x6f\x6e\x74\x65\x6e\x74\x2d\x4c\x65\x6e\x67\x74\x68\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x43\x6f\x6f\x6b\x69\x65\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x43\x61\x63\x68\x65\x2d\x43\x6f\x6e\x74\x72\x6f\x6c\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x43\x6f\x6e\x74\x65\x6e\x74\x2d\x53\x65\x63\x75\x72\x69\x74\x79\x2d\x50\x6f\x6c\x69\x63\x79\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x4c\x6f\x63\x61\x74\x69\x6f\x6e\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x4c\x61\x73\x74\x2d\x4d\x6f\x64\x69\x66\x69\x65\x64\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x50\x72\x61\x67\x6d\x61\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x53\x65\x74\x2d\x43\x6f\x6f\x6b\x69\x65\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x54\x72\x61\x6e\x73\x66\x65\x72\x2d\x45\x6e\x63\x6f\x64\x69\x6e\x67\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x58\x2d\x50\x6f\x77\x65\x72\x65\x64\x2d\x42\x79\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x58\x2d\x46\x6f\x72\x77\x61\x72\x64\x65\x64\x2d\x46\x6f\x72\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x58\x2d\x46\x6f\x72\x77\x61\x72\x64\x65\x64\x2d\x48\x6f\x73\x74\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x58\x2d\x58\x53\x53\x2d\x50\x72\x6f\x74\x65\x63\x74\x69\x6f\x6e\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x58\x2d\x57\x65\x62\x4b\x69\x74\x2d\x43\x53\x50\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x57\x57\x57\x2d\x41\x75\x74\x68\x65\x6e\x74\x69\x63\x61\x74\x65\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x44\x61\x74\x65\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x45\x54\x61\x67\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x58\x2d\x52\x65\x71\x75\x65\x73\x74\x2d\x49\x44\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x61\x43\x43\x45\x50\x54\x3a\x20\x56\x61\x6c\x75\x65\x20\x31\x32\x33\x34\x35\x36\x37\x38\x39\x30\x20\x31\x32\x33\x34\x35\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x3a\x20\x62\x0d\x0a\x20\x63\x0d\x0a\x44\x65\x2d\x46\x3a\x09\x22\x67\x5c\x22\x68\x22\x20\x69\x0d\x0a\x0d\x0a\x4a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x48\x6f\x73\x74\x3a\x20\x78\x0d\x0a\x41\x63\x63\x65\x70\x74\x3a\x0d\x0a\x20\x79\x0d\x0a\x55\x73\x65\x72\x2d\x41\x67\x65\x6e\x74\x3a\x20\x7a\x3b\x71\x3d\x22\x31\x2c\x22\x0d\x0a\x43\x6f\x6f\x6b\x69\x65\x3a\x20\x63\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x50\x4f\x53\x54\x20\x2f\x70\x3f\x71\x3d\x31\x26\x72\x3d\x25\x32\x30\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x48\x6f\x73\x74\x3a\x20\x65\x78\x61\x6d\x70\x6c\x65\x2e\x63\x6f\x6d\x3a\x38\x30\x0d\x0a\x55\x73\x65\x72\x2d\x41\x67\x65\x6e\x74\x3a\x20\x4d\x6f\x7a\x69\x6c\x6c\x61\x2f\x35\x2e\x30\x20\x28\x58\x3b\x20\x72\x76\x3a\x31\x29\x20\x47\x2f\x32\x0d\x0a\x41\x63\x63\x65\x70\x74\x3a\x20\x74\x65\x78\x74\x2f\x68\x74\x6d\x6c\x2c\x2a\x2f\x2a\x3b\x71\x3d\x30\x2e\x38\x0d\x0a\x61\x63\x63\x65\x70\x74\x2d\x6c\x61\x6e\x67\x75\x61\x67\x65\x3a\x20\x65\x6e\x0d\x0a\x43\x4f\x4e\x54\x45\x4e\x54\x2d\x54\x59\x50\x45\x3a\x20\x61\x2f\x62\x3b\x20\x62\x6f\x75\x6e\x64\x61\x72\x79\x3d\x22\x78\x20\x79\x22\x0d\x0a\x43\x6f\x6e\x74\x65\x6e\x74\x2d\x4c\x65\x6e\x67\x74\x68\x3a\x20\x31\x32\x0d\x0a\x43\x6f\x6e\x6e\x65\x63\x74\x69\x6f\x6e\x3a\x20\x6b\x65\x65\x70\x2d\x61\x6c\x69\x76\x65\x2c\x20\x55\x70\x67\x72\x61\x64\x65\x0d\x0a\x58\x2d\x79\x3a\x20\x31\x0d\x0a\x78\x2d\x79\x3a\x20\x32\x0d\x0a\x43\x6f\x6f\x6b\x69\x65\x3a\x20\x61\x3d\x62\x3b\x20\x63\x3d\x64\x0d\x0a\x0d\x0a\x42\x4f\x44\x59" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x31\x20\x33\x30\x31\x20\x4d\x6f\x76\x65\x64\x20\x50\x65\x72\x6d\x61\x6e\x65\x6e\x74\x6c\x79\x0d\x0a\x53\x65\x72\x76\x65\x72\x3a\x20\x73\x0d\x0a\x44\x61\x74\x65\x3a\x20\x54\x68\x75\x2c\x20\x30\x31\x20\x4a\x61\x6e\x20\x31\x39\x37\x30\x20\x30\x30\x3a\x30\x30\x3a\x30\x30\x20\x47\x4d\x54\x0d\x0a\x53\x65\x74\x2d\x43\x6f\x6f\x6b\x69\x65\x3a\x20\x69\x3d\x31\x3b\x20\x50\x61\x74\x68\x3d\x2f\x0d\x0a\x53\x65\x74\x2d\x43\x6f\x6f\x6b\x69\x65\x3a\x20\xfc\x6a\x3d\x32\x0d\x0a\x4c\x6f\x63\x61\x74\x69\x6f\x6e\x3a\x20\x68\x74\x74\x70\x3a\x2f\x2f\x68\x2f\x0d\x0a\x54\x72\x61\x6e\x73\x66\x65\x72\x2d\x45\x6e\x63\x6f\x64\x69\x6e\x67\x3a\x20\x63\x68\x75\x6e\x6b\x65\x64\x0d\x0a\x57\x3a\x20\x61\x0d\x0a\x20\x62\x0d\x0a\x09\x63\x0d\x0a\x56\x3a\x0d\x0a\x20\x0d\x0a\x20\x75\x0d\x0a\x0d\x0a\x52\x45\x53\x54" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x62\x0d\x0a\x30\x31\x32\x33\x34\x35\x36\x37\x38\x39\x61\x0d\x0a\x30\x30\x31\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x33\x0d\x0a\x61\x0d\x0a\x0d\x0a\x31\x3b\x78\x3d\x79\x0d\x0a\x0d\x0d\x0a\x31\x0d\x0a\x0a\x0d\x0a\x32\x3b\x6e\x3b\x6d\x3d\x22\x22\x0d\x0a\x30\x0d\x0d\x0a\x30\x30\x30\x30\x30\x30\x30\x30\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x31\x0d\x0a\x61\x0d\x0a\x31\x0d\x0a\x62\x0d\x0a\x31\x0d\x0a\x63\x0d\x0a\x31\x0d\x0a\x64\x0d\x0a\x30\x0d\x0a\x41\x3a\x20\x62\x0d\x0a\x20\x63\x0d\x0a\x43\x6f\x6e\x74\x65\x6e\x74\x2d\x4c\x65\x6e\x67\x74\x68\x3a\x20\x37\x0d\x0a\x42\x3a\x22\x64\x22\x0d\x0a\x0d\x0a\x30\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x35\x3b\x41\x3d\x62\x3b\x63\x3b\x44\x3d\x22\x65\x5c\x22\x66\x22\x3b\x67\x3d\x68\x0d\x0a\x31\x32\x33\x34\x35\x0d\x0a\x41\x0d\x0a\x30\x31\x32\x33\x34\x35\x36\x37\x38\x39\x0d\x0a\x30\x0d\x0a\x58\x2d\x59\x3a\x20\x7a\x0d\x0a\x77\x3a\x20\x76\x0d\x0a\x0d\x0a\x51" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x31\x0d\x0a\x5a\x0d\x0a\x30\x3b\x6c\x3d\x6d\x0d\x0a\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x30\x3b\x78\x0d\x0a\x41\x62\x43\x3a\x20\x64\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x41\x61\x42", lens: &[None], text: b"\x2d\x2d\x41\x61\x42\x0d\x0a\x43\x3a\x20\x64\x0d\x0a\x0d\x0a\x65\x0d\x0a\x2d\x2d\x41\x61\x66\x0d\x0a\x2d\x0d\x0a\x67\x0d\x0a\x2d\x2d\x41\x61\x42\x0d\x0a\x0d\x0a\x68\x0d\x0a\x2d\x2d\x41\x61\x42\x2d\x2d\x69" },
    Ctx { mode: 3, boundary: b"\x78", lens: &[None], text: b"\x2d\x2d\x78\x0d\x0a\x0d\x0a\x0d\x0d\x0a\x0d\x0a\x2d\x0d\x0a\x2d\x2d\x0d\x0a\x2d\x2d\x78\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d\x78\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x78\x79\x7a", lens: &[Some(4), Some(0), None], text: b"\x2d\x2d\x78\x79\x7a\x0d\x0a\x4c\x3a\x20\x34\x0d\x0a\x0d\x0a\x61\x62\x63\x64\x0d\x0a\x2d\x2d\x78\x79\x7a\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d\x78\x79\x7a\x0d\x0a\x4d\x3a\x20\x6e\x0d\x0a\x0d\x0a\x6f\x70\x0d\x0a\x2d\x2d\x78\x79\x7a\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x78\x79\x7a", lens: &[None, Some(4)], text: b"\x2d\x2d\x78\x79\x7a\x0d\x0a\x0d\x0a\x6f\x70\x0d\x0a\x2d\x2d\x78\x79\x7a\x0d\x0a\x0d\x0a\x61\x62\x63\x64\x0d\x0a\x2d\x2d\x78\x79\x7a\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x2d\x2d\x2d\x2d\x57\x65\x62\x4b\x69\x74\x46\x6f\x72\x6d\x42\x6f\x75\x6e\x64\x61\x72\x79\x37\x4d\x41\x34\x59\x57\x78\x6b\x54\x72\x5a\x75\x30\x67\x57", lens: &[None], text: b"\x2d\x2d\x2d\x2d\x2d\x2d\x57\x65\x62\x4b\x69\x74\x46\x6f\x72\x6d\x42\x6f\x75\x6e\x64\x61\x72\x79\x37\x4d\x41\x34\x59\x57\x78\x6b\x54\x72\x5a\x75\x30\x67\x57\x0d\x0a\x43\x6f\x6e\x74\x65\x6e\x74\x2d\x44\x69\x73\x70\x6f\x73\x69\x74\x69\x6f\x6e\x3a\x20\x66\x6f\x72\x6d\x2d\x64\x61\x74\x61\x3b\x20\x6e\x61\x6d\x65\x3d\x22\x61\x22\x0d\x0a\x0d\x0a\x31\x0d\x0a\x2d\x2d\x2d\x2d\x2d\x2d\x57\x65\x62\x4b\x69\x74\x46\x6f\x72\x6d\x42\x6f\x75\x6e\x64\x61\x72\x79\x37\x4d\x41\x34\x59\x57\x78\x6b\x54\x72\x5a\x75\x30\x67\x0d\x0a\x43\x6f\x6e\x74\x65\x6e\x74\x2d\x54\x79\x70\x65\x3a\x20\x74\x65\x78\x74\x2f\x70\x6c\x61\x69\x6e\x0d\x0a\x0d\x0a\x2d\x2d\x2d\x2d\x2d\x2d\x57\x65\x62\x4b\x69\x74\x46\x6f\x72\x6d\x42\x6f\x75\x6e\x64\x61\x72\x79\x37\x4d\x41\x34\x59\x57\x78\x6b\x54\x72\x5a\x75\x30\x67\x57\x0d\x0a\x0d\x0a\x2d\x2d\x2d\x2d\x2d\x2d\x57\x65\x62\x4b\x69\x74\x46\x6f\x72\x6d\x42\x6f\x75\x6e\x64\x61\x72\x79\x37\x4d\x41\x34\x59\x57\x78\x6b\x54\x72\x5a\x75\x30\x67\x57\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x61", lens: &[None], text: b"\x2d\x2d\x61\x0d\x0a\x0d\x0a\x31\x0d\x0a\x2d\x2d\x61\x0d\x0a\x0d\x0a\x32\x0d\x0a\x2d\x2d\x61\x0d\x0a\x62\x3a\x63\x0d\x0a\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d\x61\x0d\x0a\x0d\x0a\x34\x0d\x0a\x2d\x2d\x61\x2d\x2d\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x61\x61\x62", lens: &[None], text: b"\x2d\x2d\x61\x61\x62\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x0d\x0a\x2d\x2d\x61\x0d\x0a\x2d\x2d\x61\x61\x0d\x0a\x2d\x2d\x61\x61\x61\x62\x0d\x0a\x2d\x2d\x61\x61\x62\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x78\x79\x7a", lens: &[Some(7), None, Some(0), Some(1)], text: b"\x2d\x2d\x78\x79\x7a\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d\x78\x79\x7a\x0d\x0a\x2d\x2d\x78\x79\x7a\x0d\x0a\x0d\x0a\x61\x62\x0d\x0a\x2d\x2d\x78\x79\x7a\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d\x78\x79\x7a\x0d\x0a\x0d\x0a\x71\x0d\x0a\x2d\x2d\x78\x79\x7a\x2d\x2d" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x75\x73\x65\x72\x3d\x4a\x25\x63\x33\x25\x62\x36\x72\x67\x2b\x58\x26\x26\x65\x2d\x6d\x61\x69\x6c\x3d\x6a\x25\x34\x30\x78\x2e\x79\x3b\x3d\x76\x3b\x6b\x26\x6c\x3d\x3d\x25\x33\x44\x25\x32\x36\x26\x7a\x3d\x25\x30\x30\x25\x66\x46\x26\x6c\x61\x73\x74\x3d" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x61\x62\x2b\x63\x3d\x64\x2b\x25\x34\x31\x65\x26\x66\x25\x32\x62\x3d\x3b\x67\x26\x68\x3d\x69\x25\x37\x45\x6a" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x3d\x26\x3b\x78\x3d\x3d\x79\x3d\x25\x7a\x7a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x4d\x20\x2f\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x75\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x31\x20\x32\x30\x30\x20\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x72\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x3a\x20\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x0d\x0a\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x31\x32\x43\x3b\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x3d\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x0d\x0a\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x0d\x0a\x30\x0d\x0a\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x74\x3a\x75\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62", lens: &[None], text: b"\x2d\x2d\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x0d\x0a\x0d\x0a\x78\x78\x0d\x0a\x2d\x2d\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x62\x2d\x2d" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x3d\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x68\x30\x3a\x20\x76\x30\x0d\x0a\x68\x31\x3a\x20\x76\x31\x0d\x0a\x68\x32\x3a\x20\x76\x32\x0d\x0a\x68\x33\x3a\x20\x76\x33\x0d\x0a\x68\x34\x3a\x20\x76\x34\x0d\x0a\x68\x35\x3a\x20\x76\x35\x0d\x0a\x68\x36\x3a\x20\x76\x36\x0d\x0a\x68\x37\x3a\x20\x76\x37\x0d\x0a\x68\x38\x3a\x20\x76\x38\x0d\x0a\x68\x39\x3a\x20\x76\x39\x0d\x0a\x68\x31\x30\x3a\x20\x76\x31\x30\x0d\x0a\x68\x31\x31\x3a\x20\x76\x31\x31\x0d\x0a\x68\x31\x32\x3a\x20\x76\x31\x32\x0d\x0a\x68\x31\x33\x3a\x20\x76\x31\x33\x0d\x0a\x68\x31\x34\x3a\x20\x76\x31\x34\x0d\x0a\x68\x31\x35\x3a\x20\x76\x31\x35\x0d\x0a\x68\x31\x36\x3a\x20\x76\x31\x36\x0d\x0a\x68\x31\x37\x3a\x20\x76\x31\x37\x0d\x0a\x68\x31\x38\x3a\x20\x76\x31\x38\x0d\x0a\x68\x31\x39\x3a\x20\x76\x31\x39\x0d\x0a\x68\x32\x30\x3a\x20\x76\x32\x30\x0d\x0a\x68\x32\x31\x3a\x20\x76\x32\x31\x0d\x0a\x68\x32\x32\x3a\x20\x76\x32\x32\x0d\x0a\x68\x32\x33\x3a\x20\x76\x32\x33\x0d\x0a\x68\x32\x34\x3a\x20\x76\x32\x34\x0d\x0a\x68\x32\x35\x3a\x20\x76\x32\x35\x0d\x0a\x68\x32\x36\x3a\x20\x76\x32\x36\x0d\x0a\x68\x32\x37\x3a\x20\x76\x32\x37\x0d\x0a\x68\x32\x38\x3a\x20\x76\x32\x38\x0d\x0a\x68\x32\x39\x3a\x20\x76\x32\x39\x0d\x0a\x68\x33\x30\x3a\x20\x76\x33\x30\x0d\x0a\x68\x33\x31\x3a\x20\x76\x33\x31\x0d\x0a\x68\x33\x32\x3a\x20\x76\x33\x32\x0d\x0a\x68\x33\x33\x3a\x20\x76\x33\x33\x0d\x0a\x68\x33\x34\x3a\x20\x76\x33\x34\x0d\x0a\x68\x33\x35\x3a\x20\x76\x33\x35\x0d\x0a\x68\x33\x36\x3a\x20\x76\x33\x36\x0d\x0a\x68\x33\x37\x3a\x20\x76\x33\x37\x0d\x0a\x68\x33\x38\x3a\x20\x76\x33\x38\x0d\x0a\x68\x33\x39\x3a\x20\x76\x33\x39\x0d\x0a\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x31\x3b\x65\x31\x0d\x0a\x78\x0d\x0a\x32\x3b\x65\x32\x0d\x0a\x78\x78\x0d\x0a\x33\x3b\x65\x33\x0d\x0a\x78\x78\x78\x0d\x0a\x34\x3b\x65\x34\x0d\x0a\x78\x78\x78\x78\x0d\x0a\x35\x3b\x65\x35\x0d\x0a\x78\x78\x78\x78\x78\x0d\x0a\x36\x3b\x65\x36\x0d\x0a\x78\x78\x78\x78\x78\x78\x0d\x0a\x37\x3b\x65\x37\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x0d\x0a\x38\x3b\x65\x38\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x0d\x0a\x39\x3b\x65\x39\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78\x0d\x0a\x61\x3b\x65\x31\x30\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x0d\x0a\x62\x3b\x65\x31\x31\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x0d\x0a\x63\x3b\x65\x31\x32\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x0d\x0a\x64\x3b\x65\x31\x33\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x0d\x0a\x65\x3b\x65\x31\x34\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x0d\x0a\x66\x3b\x65\x31\x35\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x0d\x0a\x31\x30\x3b\x65\x31\x36\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x0d\x0a\x31\x31\x3b\x65\x31\x37\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x0d\x0a\x31\x32\x3b\x65\x31\x38\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x0d\x0a\x31\x33\x3b\x65\x31\x39\x0d\x0a\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x78\x0d\x0a\x30\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x71", lens: &[None], text: b"\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x30\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x31\x0d\x0a\x0d\x0a\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x32\x0d\x0a\x0d\x0a\x79\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x33\x0d\x0a\x0d\x0a\x79\x79\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x34\x0d\x0a\x0d\x0a\x79\x79\x79\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x35\x0d\x0a\x0d\x0a\x79\x79\x79\x79\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x36\x0d\x0a\x0d\x0a\x79\x79\x79\x79\x79\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x37\x0d\x0a\x0d\x0a\x79\x79\x79\x79\x79\x79\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x38\x0d\x0a\x0d\x0a\x79\x79\x79\x79\x79\x79\x79\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x39\x0d\x0a\x0d\x0a\x79\x79\x79\x79\x79\x79\x79\x79\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x31\x30\x0d\x0a\x0d\x0a\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x31\x31\x0d\x0a\x0d\x0a\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x31\x32\x0d\x0a\x0d\x0a\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x31\x33\x0d\x0a\x0d\x0a\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x31\x34\x0d\x0a\x0d\x0a\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x31\x35\x0d\x0a\x0d\x0a\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x31\x36\x0d\x0a\x0d\x0a\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x31\x37\x0d\x0a\x0d\x0a\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x31\x38\x0d\x0a\x0d\x0a\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x0d\x0a\x2d\x2d\x71\x0d\x0a\x68\x3a\x20\x31\x39\x0d\x0a\x0d\x0a\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x0d\x0a\x2d\x2d\x71\x2d\x2d" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x6b\x30\x3d\x25\x34\x30\x76\x26\x6b\x31\x3d\x25\x34\x31\x76\x26\x6b\x32\x3d\x25\x34\x32\x76\x26\x6b\x33\x3d\x25\x34\x33\x76\x26\x6b\x34\x3d\x25\x34\x34\x76\x26\x6b\x35\x3d\x25\x34\x35\x76\x26\x6b\x36\x3d\x25\x34\x36\x76\x26\x6b\x37\x3d\x25\x34\x37\x76\x26\x6b\x38\x3d\x25\x34\x38\x76\x26\x6b\x39\x3d\x25\x34\x39\x76\x26\x6b\x31\x30\x3d\x25\x34\x30\x76\x26\x6b\x31\x31\x3d\x25\x34\x31\x76\x26\x6b\x31\x32\x3d\x25\x34\x32\x76\x26\x6b\x31\x33\x3d\x25\x34\x33\x76\x26\x6b\x31\x34\x3d\x25\x34\x34\x76\x26\x6b\x31\x35\x3d\x25\x34\x35\x76\x26\x6b\x31\x36\x3d\x25\x34\x36\x76\x26\x6b\x31\x37\x3d\x25\x34\x37\x76\x26\x6b\x31\x38\x3d\x25\x34\x38\x76\x26\x6b\x31\x39\x3d\x25\x34\x39\x76\x26\x6b\x32\x30\x3d\x25\x34\x30\x76\x26\x6b\x32\x31\x3d\x25\x34\x31\x76\x26\x6b\x32\x32\x3d\x25\x34\x32\x76\x26\x6b\x32\x33\x3d\x25\x34\x33\x76\x26\x6b\x32\x34\x3d\x25\x34\x34\x76\x26\x6b\x32\x35\x3d\x25\x34\x35\x76\x26\x6b\x32\x36\x3d\x25\x34\x36\x76\x26\x6b\x32\x37\x3d\x25\x34\x37\x76\x26\x6b\x32\x38\x3d\x25\x34\x38\x76\x26\x6b\x32\x39\x3d\x25\x34\x39\x76\x26\x6b\x33\x30\x3d\x25\x34\x30\x76\x26\x6b\x33\x31\x3d\x25\x34\x31\x76\x26\x6b\x33\x32\x3d\x25\x34\x32\x76\x26\x6b\x33\x33\x3d\x25\x34\x33\x76\x26\x6b\x33\x34\x3d\x25\x34\x34\x76\x26\x6b\x33\x35\x3d\x25\x34\x35\x76\x26\x6b\x33\x36\x3d\x25\x34\x36\x76\x26\x6b\x33\x37\x3d\x25\x34\x37\x76\x26\x6b\x33\x38\x3d\x25\x34\x38\x76\x26\x6b\x33\x39\x3d\x25\x34\x39\x76\x26\x6b\x34\x30\x3d\x25\x34\x30\x76\x26\x6b\x34\x31\x3d\x25\x34\x31\x76\x26\x6b\x34\x32\x3d\x25\x34\x32\x76\x26\x6b\x34\x33\x3d\x25\x34\x33\x76\x26\x6b\x34\x34\x3d\x25\x34\x34\x76" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x0d\x0a\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x3a\x62\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x31\x20\x32\x30\x30\x20\x4f\x4b\x0d\x0a\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x32\x3b\x61\x3d\x62\x0d\x0a\x78\x79\x0d\x0a\x30\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x78\x0d\x0a\x2d\x0d\x0a\x2d\x2d\x42\x2d\x2d" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x61\x25\x32\x30\x3d\x62\x26\x63" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x0d\x0a\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x4d\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x75\x25\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x31\x20\x32\x30\x30\x20\x4f\x20\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x31\x20\x20\x32\x30\x30\x20\x4b\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x41\x3a\x20\x62\x0d\x0a\x43\x3a\x64\x0d\x0a\x0d\x0a\x78" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x6e\x3a\x20\x76\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x48\x54\x54\x50\x2f\x31\x2e\x31\x20\x32\x30\x30\x20\x4f\x4b\x0d\x0a\x4e\x3a\x20\x76\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x4e\x3a\x20\x76\x0d\x0a\x20\x77\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x4e\x3a\x20\x76\x0d\x0a\x20\x77\x0d\x0a\x62\x3a\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x4e\x3a\x20\x22\x71\x5c\x22\x22\x0d\x0a\x0d\x0a" },
    Ctx { mode: 1, boundary: b"", lens: &[None], text: b"\x47\x45\x54\x20\x2f\x20\x48\x54\x54\x50\x2f\x31\x2e\x31\x0d\x0a\x43\x6f\x6f\x6b\x69\x65\x3a\x20\x61\x3d\x62\x0d\x0a\x48\x6f\x73\x74\x3a\x20\x63\x0d\x0a\x78\x2d\x79\x3a\x09\x7a\x0d\x0a\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x31\x0d\x0a\x78\x0d\x0a\x30\x0d\x0a\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x32\x3b\x61\x3d\x62\x0d\x0a\x0d\x0a\x0d\x0a\x30\x0d\x0a\x54\x3a\x75\x0d\x0a\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x33\x3b\x6e\x3d\x76\x0d\x0a\x61\x62\x63\x0d\x0a\x30\x0d\x0a\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x33\x3b\x6e\x3d\x76\x0d\x0a\x61\x62\x63\x0d\x0a\x30\x0d\x0a\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x33\x3b\x6e\x3d\x22\x71\x3b\x22\x0d\x0a\x61\x62\x63\x0d\x0a\x30\x0d\x0a\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x33\x3b\x61\x3d\x62\x0d\x0a\x61\x62\x63\x0d\x0a\x30\x0d\x0a\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x33\x3b\x61\x0d\x0a\x61\x62\x63\x0d\x0a\x30\x3b\x62\x0d\x0a\x0d\x0a" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x30\x0d\x0a\x54\x3a\x75\x0d\x0a\x56\x3a\x77\x0d\x0a\x0d\x0a\x78" },
    Ctx { mode: 2, boundary: b"", lens: &[None], text: b"\x41\x0d\x0a\x30\x31\x32\x33\x34\x35\x36\x37\x38\x39\x0d\x0a\x31\x0d\x0a\x0d\x0d\x0a\x30\x0d\x0a\x0d\x0a" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x64\x0d\x0a\x2d\x2d\x42\x0d\x0a\x0d\x0a\x65\x0d\x0a\x2d\x2d\x42\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x64\x0d\x0a\x2d\x2d\x42\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d\x0d\x0a\x2d\x2d\x42\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x0d\x0d\x0a\x2d\x2d\x42\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[None], text: b"\x2d\x2d\x42\x0d\x0a\x48\x3a\x76\x0d\x0a\x0d\x0a\x65\x0d\x0a\x2d\x2d\x42\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42", lens: &[Some(1)], text: b"\x2d\x2d\x42\x0d\x0a\x0d\x0a\x65\x0d\x0a\x2d\x2d\x42\x0d\x0a\x0d\x0a\x64\x0d\x0a\x2d\x2d\x42\x2d\x2d" },
    Ctx { mode: 3, boundary: b"\x42\x43\x42", lens: &[None], text: b"\x2d\x2d\x42\x43\x42\x0d\x0a\x0d\x0a\x0d\x0a\x2d\x2d\x42\x43\x0d\x0a\x2d\x2d\x42\x43\x42\x2d\x2d" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x61\x3d\x62\x26\x63\x3d\x64" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x6e\x3d\x76" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x6e\x3d\x76\x26\x78" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x6e\x3d\x25\x34\x31\x26\x78" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x2b\x3d\x26\x25\x32\x30\x3d\x63" },
    Ctx { mode: 4, boundary: b"", lens: &[None], text: b"\x26\x61\x3d" },
];
pub static TEXTS2: [&[u8]; 179] = [
    b"",
    b"\x00\x00\x00\x00\x00\x81\x02\x03\x04",
    b"\x00\x00\x01\x00\x00\x81\x02\x03\x04",
    b"\x00\x00\x05\x00\x00\x81\x02\x03\x04",
    b"\x00\x00\x06\x00\x00\x81\x02\x03\x04",
    b"\x00\x00\x08\x00\x00\x81\x02\x03\x04",
    b"\x00\x00\x09\x00\x00\x81\x02\x03\x04",
    b"\x00\x00\x0a\x00\x00\x81\x02\x03\x04",
    b"\x00\x00\x00\x00\x08\x81\x02\x03\x04",
    b"\x00\x00\x01\x00\x08\x81\x02\x03\x04",
    b"\x00\x00\x05\x00\x08\x81\x02\x03\x04",
    b"\x00\x00\x06\x00\x08\x81\x02\x03\x04",
    b"\x00\x00\x08\x00\x08\x81\x02\x03\x04",
    b"\x00\x00\x09\x00\x08\x81\x02\x03\x04",
    b"\x00\x00\x0a\x00\x08\x81\x02\x03\x04",
    b"\x00\x00\x00\x01\x00\x81\x02\x03\x04",
    b"\x00\x00\x01\x01\x00\x81\x02\x03\x04",
    b"\x00\x00\x05\x01\x00\x81\x02\x03\x04",
    b"\x00\x00\x06\x01\x00\x81\x02\x03\x04",
    b"\x00\x00\x08\x01\x00\x81\x02\x03\x04",
    b"\x00\x00\x09\x01\x00\x81\x02\x03\x04",
    b"\x00\x00\x0a\x01\x00\x81\x02\x03\x04",
    b"\x00\x00\x00\x01\x08\x81\x02\x03\x04",
    b"\x00\x00\x01\x01\x08\x81\x02\x03\x04",
    b"\x00\x00\x05\x01\x08\x81\x02\x03\x04",
    b"\x00\x00\x06\x01\x08\x81\x02\x03\x04",
    b"\x00\x00\x08\x01\x08\x81\x02\x03\x04",
    b"\x00\x00\x09\x01\x08\x81\x02\x03\x04",
    b"\x00\x00\x0a\x01\x08\x81\x02\x03\x04",
    b"\x00\x00\x00\x01\x20\x81\x02\x03\x04",
    b"\x00\x00\x01\x01\x20\x81\x02\x03\x04",
    b"\x00\x00\x05\x01\x20\x81\x02\x03\x04",
    b"\x00\x00\x06\x01\x20\x81\x02\x03\x04",
    b"\x00\x00\x08\x01\x20\x81\x02\x03\x04",
    b"\x00\x00\x09\x01\x20\x81\x02\x03\x04",
    b"\x00\x00\x0a\x01\x20\x81\x02\x03\x04",
    b"\x00\x00\x00\x01\x28\x81\x02\x03\x04",
    b"\x00\x00\x01\x01\x28\x81\x02\x03\x04",
    b"\x00\x00\x05\x01\x28\x81\x02\x03\x04",
    b"\x00\x00\x06\x01\x28\x81\x02\x03\x04",
    b"\x00\x00\x08\x01\x28\x81\x02\x03\x04",
    b"\x00\x00\x09\x01\x28\x81\x02\x03\x04",
    b"\x00\x00\x0a\x01\x28\x81\x02\x03\x04",
    b"\x00\x00\x00\x05\x00\x81\x02\x03\x04",
    b"\x00\x00\x01\x05\x00\x81\x02\x03\x04",
    b"\x00\x00\x05\x05\x00\x81\x02\x03\x04",
    b"\x00\x00\x06\x05\x00\x81\x02\x03\x04",
    b"\x00\x00\x08\x05\x00\x81\x02\x03\x04",
    b"\x00\x00\x09\x05\x00\x81\x02\x03\x04",
    b"\x00\x00\x0a\x05\x00\x81\x02\x03\x04",
    b"\x00\x00\x00\x05\x08\x81\x02\x03\x04",
    b"\x00\x00\x01\x05\x08\x81\x02\x03\x04",
    b"\x00\x00\x05\x05\x08\x81\x02\x03\x04",
    b"\x00\x00\x06\x05\x08\x81\x02\x03\x04",
    b"\x00\x00\x08\x05\x08\x81\x02\x03\x04",
    b"\x00\x00\x09\x05\x08\x81\x02\x03\x04",
    b"\x00\x00\x0a\x05\x08\x81\x02\x03\x04",
    b"\x00\x00\x00\x06\x00\x81\x02\x03\x04",
    b"\x00\x00\x01\x06\x00\x81\x02\x03\x04",
    b"\x00\x00\x05\x06\x00\x81\x02\x03\x04",
    b"\x00\x00\x06\x06\x00\x81\x02\x03\x04",
    b"\x00\x00\x08\x06\x00\x81\x02\x03\x04",
    b"\x00\x00\x09\x06\x00\x81\x02\x03\x04",
    b"\x00\x00\x0a\x06\x00\x81\x02\x03\x04",
    b"\x00\x00\x00\x07\x00\x81\x02\x03\x04",
    b"\x00\x00\x01\x07\x00\x81\x02\x03\x04",
    b"\x00\x00\x05\x07\x00\x81\x02\x03\x04",
    b"\x00\x00\x06\x07\x00\x81\x02\x03\x04",
    b"\x00\x00\x08\x07\x00\x81\x02\x03\x04",
    b"\x00\x00\x09\x07\x00\x81\x02\x03\x04",
    b"\x00\x00\x0a\x07\x00\x81\x02\x03\x04",
    b"\x00\x00\x00\x09\x00\x81\x02\x03\x04",
    b"\x00\x00\x01\x09\x00\x81\x02\x03\x04",
    b"\x00\x00\x05\x09\x00\x81\x02\x03\x04",
    b"\x00\x00\x06\x09\x00\x81\x02\x03\x04",
    b"\x00\x00\x08\x09\x00\x81\x02\x03\x04",
    b"\x00\x00\x09\x09\x00\x81\x02\x03\x04",
    b"\x00\x00\x0a\x09\x00\x81\x02\x03\x04",
    b"\x00\x00\x00\x0b\x00\x81\x02\x03\x04",
    b"\x00\x00\x01\x0b\x00\x81\x02\x03\x04",
    b"\x00\x00\x05\x0b\x00\x81\x02\x03\x04",
    b"\x00\x00\x06\x0b\x00\x81\x02\x03\x04",
    b"\x00\x00\x08\x0b\x00\x81\x02\x03\x04",
    b"\x00\x00\x09\x0b\x00\x81\x02\x03\x04",
    b"\x00\x00\x0a\x0b\x00\x81\x02\x03\x04",
    b"\x00\x00\x00\x0b\x08\x81\x02\x03\x04",
    b"\x00\x00\x01\x0b\x08\x81\x02\x03\x04",
    b"\x00\x00\x05\x0b\x08\x81\x02\x03\x04",
    b"\x00\x00\x06\x0b\x08\x81\x02\x03\x04",
    b"\x00\x00\x08\x0b\x08\x81\x02\x03\x04",
    b"\x00\x00\x09\x0b\x08\x81\x02\x03\x04",
    b"\x00\x00\x0a\x0b\x08\x81\x02\x03\x04",
    b"\x00\x00\x00\xff\x00\x81\x02\x03\x04",
    b"\x00\x00\x01\xff\x00\x81\x02\x03\x04",
    b"\x00\x00\x05\xff\x00\x81\x02\x03\x04",
    b"\x00\x00\x06\xff\x00\x81\x02\x03\x04",
    b"\x00\x00\x08\xff\x00\x81\x02\x03\x04",
    b"\x00\x00\x09\xff\x00\x81\x02\x03\x04",
    b"\x00\x00\x0a\xff\x00\x81\x02\x03\x04",
    b"\x00\x00\x05\x02\x00\x81\x02\x03\x04",
    b"\x00\x00\x04\x03\x00\x81\x02\x03\x04",
    b"\x00\x00\x06\x04\x00\x81\x02\x03\x04",
    b"\x00\x00\x00\x04\x00\x81\x02\x03\x04",
    b"\x00\x00\x04\x08\x00\x81\x02\x03\x04",
    b"\x00\x00\x06\x04\x00\x81\x02\x03\x04\x00\x03\x00\x00\x00\x64\x00\x00\x0b\x01\x28\x81\x02\x03\x04\x02\x80\x00\x00\x05\x10\x61\x62\x63\x00\x00\x00\x00\x02\x09\x04\x81\x02\x03\x04\x78\x79\x00\x00\x09\x00\x08\x81\x02\x03\x04\x03\x68\x65\x6c\x6c\x6f\x01\x02\x03\x00\x00\x04\x08\x00\x81\x02\x03\x04\x80\x00\x01\x02",
    b"\x00\x00\x0a\x05\x08\x81\x02\x03\x04\x01\x80\x00\x00\x02\x66\x72\x61\x67\x00\x00\x00\x04\x03\x00\x81\x02\x03\x04\x00\x00\x00\x07\x00\x00\x0b\x07\x00\x81\x02\x03\x04\x80\x00\x00\x07\x00\x00\x00\x02\x64\x62\x67\x00\x00\x08\x06\x01\x81\x02\x03\x04\x31\x32\x33\x34\x35\x36\x37\x38\x00\x00\x05\x02\x00\x81\x02\x03\x04\x80\x00\x00\x01\xff\x00\x00\x06\x42\x08\x81\x02\x03\x04\x02\x75\x76\x77\x00\x00\x00\x00\x00\x04\x01\x81\x02\x03\x04",
    b"\x00\x00\x00\x00\x00\x81\x02\x03\x04\x00\x00\x03\x01\x08\x81\x02\x03\x04\x01\x68\x00\x00\x00\x01\x01\x00\x81\x02\x03\x04\x6b\x00\x00\x08\x07\x00\x81\x02\x03\x04\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x03\x00\x08\x81\x02\x03\x04\x02\x00\x00\x00\x00\x04\x05\x00\x81\x02\x03\x04\x00\x00\x00\x03\x00\x00\x01\x0a\x00\x81\x02\x03\x04\x7a\x00\x00\x01\x00\x01\x81\x02\x03\x04\x21",
    b"\x00\x02\x2c\x00\x08\x81\x02\x03\x04\xff\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x64\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x08\x06\x00\x81\x02\x03\x04\x31\x32\x33\x34\x35\x36\x37\x38",
    b"\x00\x01\x2c\x01\x00\x81\x02\x03\x04\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x68\x00\x01\x04\x09\x00\x81\x02\x03\x04\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x63\x00\x00\x01\x00\x00\x81\x02\x03\x04\x65",
    b"\x00\x00\x0b\x01\x28\x81\x02\x03\x04\x02\x80\x00\x00\x05\x10\x61\x62\x63\x00\x00\x00\x00\x02\x09\x04\x81\x02\x03\x04\x78\x79\x00\x00\x09\x00\x08\x81\x02\x03\x04\x03\x68\x65\x6c\x6c\x6f\x01\x02\x03\x00\x00\x04\x08\x00\x81\x02\x03\x04\x80\x00\x01\x02",
    b"\x00\x00\x0a\x05\x08\x81\x02\x03\x04\x01\x80\x00\x00\x02\x66\x72\x61\x67\x00\x00\x00\x04\x03\x00\x81\x02\x03\x04\x00\x00\x00\x07\x00\x00\x0b\x07\x00\x81\x02\x03\x04\x80\x00\x00\x07\x00\x00\x00\x02\x64\x62\x67\x00\x00\x08\x06\x01\x81\x02\x03\x04\x31\x32\x33\x34\x35\x36\x37\x38\x00\x00\x05\x02\x00\x81\x02\x03\x04\x80\x00\x00\x01\xff\x00\x00\x06\x42\x08\x81\x02\x03\x04\x02\x75\x76\x77\x00\x00\x00\x00\x00\x04\x01\x81\x02\x03\x04",
    b"\x00\x00\x00\x00\x00\x81\x02\x03\x04\x00\x00\x03\x01\x08\x81\x02\x03\x04\x01\x68\x00\x00\x00\x01\x01\x00\x81\x02\x03\x04\x6b\x00\x00\x08\x07\x00\x81\x02\x03\x04\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x03\x00\x08\x81\x02\x03\x04\x02\x00\x00\x00\x00\x04\x05\x00\x81\x02\x03\x04\x00\x00\x00\x03\x00\x00\x01\x0a\x00\x81\x02\x03\x04\x7a\x00\x00\x01\x00\x01\x81\x02\x03\x04\x21",
    b"",
    b"\x61",
    b"\x25\x34",
    b"\x25\x43\x33",
    b"\x25\x45\x32\x25\x38\x32",
    b"\x25\x66\x30\x25\x39\x66\x25\x39\x38",
    b"\x78\x25\x34\x31",
    b"\x46\x6f\x6f\x2b\x42\x25\x36\x31\x72\x2f\x7e\x21\x25\x32\x30\x25\x65\x32\x25\x38\x32\x25\x61\x63\x25\x46\x30\x25\x39\x46\x25\x39\x38\x25\x38\x30",
    b"\x25\x34\x31\x25\x34\x32\x25\x34\x33\x25\x63\x33\x25\x41\x39\x7a",
    b"",
    b"\x61",
    b"\x61\x3d",
    b"\x61\x3d\x62",
    b"\x61\x62\x26",
    b"\x61\x3d\x31\x3b",
    b"\x6e\x25\x34",
    b"\x6e\x3d\x25\x43",
    b"\x6e\x25\x43\x33",
    b"\x6e\x3d\x25\x45\x32\x25\x38\x32",
    b"\x61\x3d\x62\x26\x26",
    b"\x61\x3d\x62\x3d\x63",
    b"\x6e\x61\x6d\x65\x3d\x76\x61\x2b\x6c\x75\x65\x26\x6b\x25\x36\x31\x3b\x78\x3d\x25\x34\x31\x25\x63\x33\x25\x61\x39\x26\x26\x79\x3d\x3b\x7a\x3d\x3d\x71\x26\x6c\x61\x73\x74",
    b"\x66\x25\x45\x32\x25\x38\x32\x25\x41\x43\x3d\x31\x26\x67\x3d\x25\x46\x30\x25\x39\x46\x25\x39\x38\x25\x38\x30",
    b"",
    b"\x61",
    b"\x61\x3d",
    b"\x61\x3d\x62",
    b"\x61\x3d\x22",
    b"\x61\x3d\x22\x62",
    b"\x61\x3d\x22\x62\x5c",
    b"\x61\x3d\x22\x62\x22",
    b"\x61\x3d\x22\x62\x22\x20",
    b"\x61\x20",
    b"\x20\x09",
    b"\x61\x3b",
    b"\x61\x3d\x20",
    b"\x41\x62\x3d\x63\x3b\x44",
    b"\x61\x3d\xc3",
    b"\x61\x3d\x22\xe2\x82",
    b"\x74\x65\x78\x74\x2f",
    b"\x66\x6f\x72\x6d\x2d\x64\x61\x74\x61\x3b\x20\x4e\x61\x6d\x65\x3d\x22\x66\x5c\x22\x5c\x5c\x78\x22\x20\x3b\x20\x46\x49\x4c\x45\x3d\x20\x76\x31\x3b\x71\x3b\x20\x20\x7a\x3d\x22\x22\x3b\x62\x3d\xc3\xa9",
    b"\x61\x3d\x31\x2c\x20\x42\x2f\x63\x3d\x22\x32\x2c\x33\x22\x20\x2c\x09\x44\x3d\x34\x26\x65\x3b",
    b"\x6d\x61\x78\x3d\x22\x31\x3b\x32\x22\x20\x2c\x20\x6b\x3b\x20\x6a\x3d\x35",
    b"\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b\x61\x62\x25\x36\x33\x2b",
    b"\x6b\x30\x3d\x25\x34\x30\x2b\x76\x26\x6b\x31\x3d\x25\x34\x31\x2b\x76\x26\x6b\x32\x3d\x25\x34\x32\x2b\x76\x26\x6b\x33\x3d\x25\x34\x33\x2b\x76\x26\x6b\x34\x3d\x25\x34\x34\x2b\x76\x26\x6b\x35\x3d\x25\x34\x35\x2b\x76\x26\x6b\x36\x3d\x25\x34\x36\x2b\x76\x26\x6b\x37\x3d\x25\x34\x37\x2b\x76\x26\x6b\x38\x3d\x25\x34\x38\x2b\x76\x26\x6b\x39\x3d\x25\x34\x39\x2b\x76\x26\x6b\x31\x30\x3d\x25\x34\x30\x2b\x76\x26\x6b\x31\x31\x3d\x25\x34\x31\x2b\x76\x26\x6b\x31\x32\x3d\x25\x34\x32\x2b\x76\x26\x6b\x31\x33\x3d\x25\x34\x33\x2b\x76\x26\x6b\x31\x34\x3d\x25\x34\x34\x2b\x76\x26\x6b\x31\x35\x3d\x25\x34\x35\x2b\x76\x26\x6b\x31\x36\x3d\x25\x34\x36\x2b\x76\x26\x6b\x31\x37\x3d\x25\x34\x37\x2b\x76\x26\x6b\x31\x38\x3d\x25\x34\x38\x2b\x76\x26\x6b\x31\x39\x3d\x25\x34\x39\x2b\x76\x26\x6b\x32\x30\x3d\x25\x34\x30\x2b\x76\x26\x6b\x32\x31\x3d\x25\x34\x31\x2b\x76\x26\x6b\x32\x32\x3d\x25\x34\x32\x2b\x76\x26\x6b\x32\x33\x3d\x25\x34\x33\x2b\x76\x26\x6b\x32\x34\x3d\x25\x34\x34\x2b\x76\x26\x6b\x32\x35\x3d\x25\x34\x35\x2b\x76\x26\x6b\x32\x36\x3d\x25\x34\x36\x2b\x76\x26\x6b\x32\x37\x3d\x25\x34\x37\x2b\x76\x26\x6b\x32\x38\x3d\x25\x34\x38\x2b\x76\x26\x6b\x32\x39\x3d\x25\x34\x39\x2b\x76",
    b"\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x6e\x3d\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76",
    b"\x4e\x30\x3d\x22\x30\x22\x3b\x20\x6d\x30\x3d\x76\x3b\x20\x4e\x31\x3d\x22\x31\x22\x3b\x20\x6d\x31\x3d\x76\x3b\x20\x4e\x32\x3d\x22\x32\x22\x3b\x20\x6d\x32\x3d\x76\x3b\x20\x4e\x33\x3d\x22\x33\x22\x3b\x20\x6d\x33\x3d\x76\x3b\x20\x4e\x34\x3d\x22\x34\x22\x3b\x20\x6d\x34\x3d\x76\x3b\x20\x4e\x35\x3d\x22\x35\x22\x3b\x20\x6d\x35\x3d\x76\x3b\x20\x4e\x36\x3d\x22\x36\x22\x3b\x20\x6d\x36\x3d\x76\x3b\x20\x4e\x37\x3d\x22\x37\x22\x3b\x20\x6d\x37\x3d\x76\x3b\x20\x4e\x38\x3d\x22\x38\x22\x3b\x20\x6d\x38\x3d\x76\x3b\x20\x4e\x39\x3d\x22\x39\x22\x3b\x20\x6d\x39\x3d\x76\x3b\x20\x4e\x31\x30\x3d\x22\x31\x30\x22\x3b\x20\x6d\x31\x30\x3d\x76\x3b\x20\x4e\x31\x31\x3d\x22\x31\x31\x22\x3b\x20\x6d\x31\x31\x3d\x76\x3b\x20\x4e\x31\x32\x3d\x22\x31\x32\x22\x3b\x20\x6d\x31\x32\x3d\x76\x3b\x20\x4e\x31\x33\x3d\x22\x31\x33\x22\x3b\x20\x6d\x31\x33\x3d\x76\x3b\x20\x4e\x31\x34\x3d\x22\x31\x34\x22\x3b\x20\x6d\x31\x34\x3d\x76\x3b\x20\x4e\x31\x35\x3d\x22\x31\x35\x22\x3b\x20\x6d\x31\x35\x3d\x76\x3b\x20\x4e\x31\x36\x3d\x22\x31\x36\x22\x3b\x20\x6d\x31\x36\x3d\x76\x3b\x20\x4e\x31\x37\x3d\x22\x31\x37\x22\x3b\x20\x6d\x31\x37\x3d\x76\x3b\x20\x4e\x31\x38\x3d\x22\x31\x38\x22\x3b\x20\x6d\x31\x38\x3d\x76\x3b\x20\x4e\x31\x39\x3d\x22\x31\x39\x22\x3b\x20\x6d\x31\x39\x3d\x76",
    b"\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x4e\x3d\x22\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x76\x5c\x5c\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x77\x22\x3b\x20\x78\x3d\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79\x79",
    b"\x00\x00\x00\x04\x01\x81\x02\x03\x04\x00\x00\x04\x00\x08\x81\x02\x03\x04\x01\x61\x62\x00\x00\x00\x0b\x01\x28\x81\x02\x03\x04\x02\x80\x00\x00\x05\x10\x61\x62\x63\x00\x00\x00\x00\x04\x03\x00\x81\x02\x03\x04\x00\x00\x00\x07",
    b"\x00\x00\x00\x04\x01\x81\x02\x03\x04\x00\x00\x00\x00\x01\x81\x02\x03\x04\x00\x00\x0b\x01\x28\x81\x02\x03\x04\x02\x80\x00\x00\x05\x10\x61\x62\x63\x00\x00\x00\x00\x04\x03\x00\x81\x02\x03\x04\x00\x00\x00\x07",
    b"\x00\x00\x00\x04\x01\x81\x02\x03\x04\x00\x00\x08\x06\x00\x81\x02\x03\x04\x31\x32\x33\x34\x35\x36\x37\x38\x00\x00\x00\x04\x01\x81\x02\x03\x04\x00\x00\x0b\x01\x28\x81\x02\x03\x04\x02\x80\x00\x00\x05\x10\x61\x62\x63\x00\x00\x00\x00\x04\x03\x00\x81\x02\x03\x04\x00\x00\x00\x07",
    b"\x00\x00\x00\x04\x01\x81\x02\x03\x04\x00\x00\x06\x04\x00\x81\x02\x03\x04\x00\x03\x00\x00\x00\x64\x00\x00\x04\x08\x00\x81\x02\x03\x04\x80\x00\x01\x02\x00\x00\x0b\x01\x28\x81\x02\x03\x04\x02\x80\x00\x00\x05\x10\x61\x62\x63\x00\x00\x00\x00\x04\x03\x00\x81\x02\x03\x04\x00\x00\x00\x07",
    b"\x00\x00\x00\x04\x01\x81\x02\x03\x04\x00\x00\x08\x01\x28\x81\x02\x03\x04\x01\x80\x00\x00\x05\x10\x68\x00\x00\x00\x02\x09\x04\x81\x02\x03\x04\x78\x79\x00\x00\x05\x05\x00\x81\x02\x03\x04\x00\x00\x00\x03\x66\x00\x00\x0b\x01\x28\x81\x02\x03\x04\x02\x80\x00\x00\x05\x10\x61\x62\x63\x00\x00\x00\x00\x04\x03\x00\x81\x02\x03\x04\x00\x00\x00\x07",
    b"\x00\x00\x00\x04\x01\x81\x02\x03\x04\x00\x00\x06\x42\x08\x81\x02\x03\x04\x02\x75\x76\x77\x00\x00\x00\x00\x05\x02\x00\x81\x02\x03\x04\x80\x00\x00\x01\xff\x00\x00\x0b\x01\x28\x81\x02\x03\x04\x02\x80\x00\x00\x05\x10\x61\x62\x63\x00\x00\x00\x00\x04\x03\x00\x81\x02\x03\x04\x00\x00\x00\x07",
    b"\x00\x00\x00\x04\x01\x81\x02\x03\x04\x00\x00\x0b\x07\x00\x81\x02\x03\x04\x00\x00\x00\x01\x00\x00\x00\x00\x64\x62\x67\x00\x00\x0b\x01\x28\x81\x02\x03\x04\x02\x80\x00\x00\x05\x10\x61\x62\x63\x00\x00\x00\x00\x04\x03\x00\x81\x02\x03\x04\x00\x00\x00\x07",
    b"\x61\x25\x34\x32",
    b"\x78\x25\x34\x31\x2b\x25\x63\x33\x25\x61\x39",
    b"\x25\x65\x32\x25\x38\x32\x25\x61\x63\x21",
    b"\x61\x3d\x62\x26\x63\x3d\x64",
    b"\x6e\x3d\x76",
    b"\x6e\x3d\x76\x25\x34\x31\x26\x78",
    b"\x26\x78\x3d\x79",
    b"\x61\x3d\x62\x3b\x63\x3d\x64",
    b"\x4e\x3d\x76",
    b"\x6e\x3d\x76\x3b\x78",
    b"\x6e\x3d\x22\x76\x5c\x22\x22\x3b\x78",
    b"\x61\x20\x3b\x78",
];
