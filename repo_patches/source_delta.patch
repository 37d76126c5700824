From 418d751867fcf2708ca17537e8c9c52aca4c6fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 01/60] fix: retry interrupted reads of strings in ReadCache

---
 src/read/read_cache.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/read/read_cache.rs b/src/read/read_cache.rs
index bfb9bf7..fd74c44 100644
--- a/src/read/read_cache.rs
+++ b/src/read/read_cache.rs
@@ -5,7 +5,7 @@ use core::convert::TryInto;
 use core::mem;
 use core::ops::Range;
 #[cfg(feature = "std")]
-use std::io::{Read, Seek, SeekFrom};
+use std::io::{ErrorKind, Read, Seek, SeekFrom};
 
 #[cfg(not(feature = "std"))]
 use alloc::collections::btree_map::{BTreeMap as Map, Entry};
@@ -252,7 +252,14 @@ impl<T: Read + Seek> ReadCacheOps for T {
     }
 
     fn read(&mut self, buf: &mut [u8]) -> Result<usize, ()> {
-        Read::read(self, buf).map_err(|_| ())
+        loop {
+            match Read::read(self, buf) {
+                Ok(len) => return Ok(len),
+                // Same as `Read::read_exact`.
+                Err(ref err) if err.kind() == ErrorKind::Interrupted => {}
+                Err(_) => return Err(()),
+            }
+        }
     }
 
     fn read_exact(&mut self, buf: &mut [u8]) -> Result<(), ()> {
-- 
2.43.0


From c8c3d31c645c77200b1d4d2b47501bee367eb924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 02/60] fix: honour the range end for strings found in
 ReadCache

---
 src/read/read_cache.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read/read_cache.rs b/src/read/read_cache.rs
index fd74c44..2209e22 100644
--- a/src/read/read_cache.rs
+++ b/src/read/read_cache.rs
@@ -158,6 +158,10 @@ impl<'a, R: ReadCacheOps> ReadRef<'a> for &'a ReadCache<R> {
                 }
             }
         };
+        // The entry may have been cached by a read of a larger range.
+        if buf.len() as u64 >= range.end - range.start {
+            return Err(());
+        }
         // Extend the lifetime to that of self.
         // This is OK because we never mutate or remove entries.
         Ok(unsafe { mem::transmute::<&[u8], &[u8]>(buf) })
-- 
2.43.0


From 4699be14aad06b5d511d34868dd82cf7f888916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 03/60] fix: check the range end in
 ReadCacheRange::read_bytes_at_until

---
 src/read/read_cache.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/read/read_cache.rs b/src/read/read_cache.rs
index 2209e22..f6a3a0f 100644
--- a/src/read/read_cache.rs
+++ b/src/read/read_cache.rs
@@ -205,15 +205,12 @@ impl<'a, R: ReadCacheOps> ReadRef<'a> for ReadCacheRange<'a, R> {
     }
 
     fn read_bytes_at_until(self, range: Range<u64>, delimiter: u8) -> Result<&'a [u8], ()> {
-        let r_start = self.offset.checked_add(range.start).ok_or(())?;
-        let r_end = self.offset.checked_add(range.end).ok_or(())?;
-        let bytes = self.r.read_bytes_at_until(r_start..r_end, delimiter)?;
-        let size = bytes.len().try_into().map_err(|_| ())?;
-        let end = range.start.checked_add(size).ok_or(())?;
-        if end > self.size {
+        if range.end > self.size {
             return Err(());
         }
-        Ok(bytes)
+        let r_start = self.offset.checked_add(range.start).ok_or(())?;
+        let r_end = self.offset.checked_add(range.end).ok_or(())?;
+        self.r.read_bytes_at_until(r_start..r_end, delimiter)
     }
 }
 
-- 
2.43.0


From 6bbcf0d8a1eb426e297385ede5f532728326dfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 04/60] fix: report allocation failure for strings in ReadCache

---
 src/read/read_cache.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/read/read_cache.rs b/src/read/read_cache.rs
index f6a3a0f..57939a2 100644
--- a/src/read/read_cache.rs
+++ b/src/read/read_cache.rs
@@ -142,7 +142,9 @@ impl<'a, R: ReadCacheOps> ReadRef<'a> for &'a ReadCache<R> {
                 let mut bytes = Vec::new();
                 let mut checked = 0;
                 loop {
-                    bytes.resize((checked + 256).min(max_check), 0);
+                    let size = (checked + 256).min(max_check);
+                    bytes.try_reserve(size - bytes.len()).map_err(|_| ())?;
+                    bytes.resize(size, 0);
                     let read = cache.read.read(&mut bytes[checked..])?;
                     if read == 0 {
                         return Err(());
-- 
2.43.0


From 2633061d689d550fe900c53846c3d6523aac6762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 05/60] fix: decode R_RISCV_32_PCREL, which the writer emits
 for relative relocations

---
 src/read/elf/relocation.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/read/elf/relocation.rs b/src/read/elf/relocation.rs
index 25257d9..2b2600c 100644
--- a/src/read/elf/relocation.rs
+++ b/src/read/elf/relocation.rs
@@ -471,6 +471,7 @@ fn parse_relocation<Elf: FileHeader>(
             elf::R_RISCV_NONE => (K::None, g, 0),
             elf::R_RISCV_32 => (K::Absolute, g, 32),
             elf::R_RISCV_64 => (K::Absolute, g, 64),
+            elf::R_RISCV_32_PCREL => (K::Relative, g, 32),
             _ => unknown,
         },
         elf::EM_S390 => match r_type {
-- 
2.43.0


From 7df6eb4e3c22a0383a5dd2f033b78301e8b32f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 06/60] fix: do not leave implied symbols behind when a
 relocation is refused

---
 src/write/coff/object.rs  | 16 +++++++---------
 src/write/macho/object.rs | 13 +++++++------
 src/write/mod.rs          | 28 +++++++++++++++++++++++-----
 3 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/write/coff/object.rs b/src/write/coff/object.rs
index 0dc6bf7..0b6885a 100644
--- a/src/write/coff/object.rs
+++ b/src/write/coff/object.rs
@@ -167,10 +167,8 @@ impl<'a> Object<'a> {
         SymbolFlags::Coff { typ, storage_class }
     }
 
-    pub(crate) fn coff_translate_relocation(
-        &mut self,
-        reloc: &mut RelocationInternal,
-    ) -> Result<()> {
+    /// Returns `true` if the relocation must use a stub symbol.
+    pub(crate) fn coff_translate_relocation(&self, reloc: &mut RelocationInternal) -> Result<bool> {
         use RelocationEncoding as E;
         use RelocationKind as K;
 
@@ -182,14 +180,14 @@ impl<'a> Object<'a> {
         {
             (kind, encoding, size)
         } else {
-            return Ok(());
+            return Ok(false);
         };
-        if kind == K::GotRelative {
+        let need_stub = kind == K::GotRelative;
+        if need_stub {
             // Use a stub symbol for the relocation instead.
             // This isn't really a GOT, but it's a similar purpose.
             // TODO: need to handle DLL imports differently?
             kind = K::Relative;
-            reloc.symbol = self.coff_add_stub_symbol(reloc.symbol)?;
         } else if kind == K::PltRelative {
             // Windows doesn't need a separate relocation type for
             // references to functions in import libraries.
@@ -253,7 +251,7 @@ impl<'a> Object<'a> {
             }
         };
         reloc.flags = RelocationFlags::Coff { typ };
-        Ok(())
+        Ok(need_stub)
     }
 
     pub(crate) fn coff_adjust_addend(&self, relocation: &mut RelocationInternal) -> Result<bool> {
@@ -357,7 +355,7 @@ impl<'a> Object<'a> {
         size.ok_or_else(|| Error(format!("unsupported relocation for size {:?}", reloc)))
     }
 
-    fn coff_add_stub_symbol(&mut self, symbol_id: SymbolId) -> Result<SymbolId> {
+    pub(crate) fn coff_add_stub_symbol(&mut self, symbol_id: SymbolId) -> Result<SymbolId> {
         if let Some(stub_id) = self.stub_symbols.get(&symbol_id) {
             return Ok(*stub_id);
         }
diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index bb2efe5..3abbd1a 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -300,11 +300,11 @@ impl<'a> Object<'a> {
         init_symbol_id
     }
 
+    /// Returns `true` if the relocation must subtract the section symbol.
     pub(crate) fn macho_translate_relocation(
-        &mut self,
-        section: SectionId,
+        &self,
         reloc: &mut RelocationInternal,
-    ) -> Result<()> {
+    ) -> Result<bool> {
         use RelocationEncoding as E;
         use RelocationKind as K;
 
@@ -316,8 +316,9 @@ impl<'a> Object<'a> {
         {
             (kind, encoding, size)
         } else {
-            return Ok(());
+            return Ok(false);
         };
+        let mut need_subtractor = false;
         // Aarch64 relocs of these sizes act as if they are double-word length
         if self.architecture == Architecture::Aarch64 && matches!(size, 12 | 21 | 26) {
             size = 32;
@@ -354,7 +355,7 @@ impl<'a> Object<'a> {
                 (K::Relative, E::Generic) => {
                     // arm64 doesn't have PC relative relocations for data,
                     // use ARM64_RELOC_SUBTRACTOR instead.
-                    reloc.subtractor = Some(self.section_symbol(section));
+                    need_subtractor = true;
                     // S - (section + offset) + A = S - section + (A - offset)
                     reloc.addend -= reloc.offset as i64;
                     (false, macho::ARM64_RELOC_UNSIGNED)
@@ -382,7 +383,7 @@ impl<'a> Object<'a> {
             r_pcrel,
             r_length,
         };
-        Ok(())
+        Ok(need_subtractor)
     }
 
     pub(crate) fn macho_adjust_addend(
diff --git a/src/write/mod.rs b/src/write/mod.rs
index d63a994..557d0ec 100644
--- a/src/write/mod.rs
+++ b/src/write/mod.rs
@@ -720,17 +720,23 @@ impl<'a> Object<'a> {
         section: SectionId,
         mut relocation: RelocationInternal,
     ) -> Result<()> {
-        match self.format {
+        let need_implied_symbol = match self.format {
             #[cfg(feature = "coff")]
             BinaryFormat::Coff => self.coff_translate_relocation(&mut relocation)?,
             #[cfg(feature = "elf")]
-            BinaryFormat::Elf => self.elf_translate_relocation(&mut relocation)?,
+            BinaryFormat::Elf => {
+                self.elf_translate_relocation(&mut relocation)?;
+                false
+            }
             #[cfg(feature = "macho")]
-            BinaryFormat::MachO => self.macho_translate_relocation(section, &mut relocation)?,
+            BinaryFormat::MachO => self.macho_translate_relocation(&mut relocation)?,
             #[cfg(feature = "xcoff")]
-            BinaryFormat::Xcoff => self.xcoff_translate_relocation(&mut relocation)?,
+            BinaryFormat::Xcoff => {
+                self.xcoff_translate_relocation(&mut relocation)?;
+                false
+            }
             _ => unimplemented!(),
-        }
+        };
         let implicit = match self.format {
             #[cfg(feature = "coff")]
             BinaryFormat::Coff => self.coff_adjust_addend(&mut relocation)?,
@@ -746,6 +752,18 @@ impl<'a> Object<'a> {
             self.write_relocation_addend(section, &relocation)?;
             relocation.addend = 0;
         }
+        // Only add symbols once the relocation is known to be supported.
+        if need_implied_symbol {
+            match self.format {
+                #[cfg(feature = "coff")]
+                BinaryFormat::Coff => {
+                    relocation.symbol = self.coff_add_stub_symbol(relocation.symbol)?;
+                }
+                #[cfg(feature = "macho")]
+                BinaryFormat::MachO => relocation.subtractor = Some(self.section_symbol(section)),
+                _ => {}
+            }
+        }
         self.sections[section.0].relocations.push(relocation);
         Ok(())
     }
-- 
2.43.0


From 22eb9915c32ce1bbd8933d0e37d044ce676848ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 07/60] fix: adjust Mach-O PC-relative addends by the size of
 the relocation

---
 src/write/macho/object.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 3abbd1a..a5efaaf 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -390,11 +390,13 @@ impl<'a> Object<'a> {
         &mut self,
         relocation: &mut RelocationInternal,
     ) -> Result<bool> {
-        let (r_type, r_pcrel) = if let RelocationFlags::MachO {
-            r_type, r_pcrel, ..
+        let (r_type, r_pcrel, r_length) = if let RelocationFlags::MachO {
+            r_type,
+            r_pcrel,
+            r_length,
         } = relocation.flags
         {
-            (r_type, r_pcrel)
+            (r_type, r_pcrel, r_length)
         } else {
             return Err(Error(format!("invalid relocation flags {:?}", relocation)));
         };
@@ -404,13 +406,14 @@ impl<'a> Object<'a> {
             // PC being different from the place of the relocation.
             // This differs from other file formats, so adjust the
             // addend here to account for this.
+            let size = 1i64.wrapping_shl(r_length.into());
             let pcrel_offset = match self.architecture {
-                Architecture::I386 => 4,
+                Architecture::I386 => size,
                 Architecture::X86_64 => match r_type {
-                    macho::X86_64_RELOC_SIGNED_1 => 5,
-                    macho::X86_64_RELOC_SIGNED_2 => 6,
-                    macho::X86_64_RELOC_SIGNED_4 => 8,
-                    _ => 4,
+                    macho::X86_64_RELOC_SIGNED_1 => size + 1,
+                    macho::X86_64_RELOC_SIGNED_2 => size + 2,
+                    macho::X86_64_RELOC_SIGNED_4 => size + 4,
+                    _ => size,
                 },
                 // TODO: maybe missing support for some architectures and relocations
                 _ => 0,
-- 
2.43.0


From 69299822650056bf6a7b69dd6b37667c86e43dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 08/60] fix: refuse Mach-O ARM64 relocation addends that do not
 fit in 24 bits

---
 src/write/macho/object.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index a5efaaf..dce4394 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -431,6 +431,13 @@ impl<'a> Object<'a> {
         } else {
             true
         };
+        // An explicit addend is stored in a 24-bit signed field.
+        if !implicit && !(-0x80_0000..0x80_0000).contains(&relocation.addend) {
+            return Err(Error(format!(
+                "unsupported relocation addend {:?}",
+                relocation
+            )));
+        }
         Ok(implicit)
     }
 
-- 
2.43.0


From 777a67bb0ebfbe9fc8ae62d7eee991d3edabfc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 09/60] fix: encode r_symbolnum of big-endian Mach-O
 relocations

---
 src/macho.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macho.rs b/src/macho.rs
index c5b7718..b7df492 100644
--- a/src/macho.rs
+++ b/src/macho.rs
@@ -3953,7 +3953,7 @@ impl RelocationInfo {
                     | u32::from(self.r_extern) << 27
                     | u32::from(self.r_type.0) << 28
             } else {
-                self.r_symbolnum >> 8
+                self.r_symbolnum << 8
                     | u32::from(self.r_pcrel) << 7
                     | u32::from(self.r_length & 0x3) << 5
                     | u32::from(self.r_extern) << 4
-- 
2.43.0


From 32acd9362e14fb55a33f330fe1e9f62945d4bce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 10/60] fix: write the size of uninitialized XCOFF sections

---
 src/write/xcoff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index db2e3fb..633b1c6 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -257,7 +257,7 @@ impl<'a> Object<'a> {
                 || sectype == SectionKind::UninitializedData
             {
                 section_offsets[index].address = address;
-                address += len;
+                address += section.size;
                 address = align(address, 4);
             } else {
                 section_offsets[index].address = 0;
@@ -407,7 +407,7 @@ impl<'a> Object<'a> {
                     s_paddr: section_offsets[index].address.into(),
                     // This field has the same value as the s_paddr field.
                     s_vaddr: section_offsets[index].address.into(),
-                    s_size: (section.data.len() as u64).into(),
+                    s_size: section.size.into(),
                     s_scnptr: (section_offsets[index].data_offset as u64).into(),
                     s_relptr: (section_offsets[index].reloc_offset as u64).into(),
                     s_lnnoptr: 0.into(),
@@ -423,7 +423,7 @@ impl<'a> Object<'a> {
                     s_paddr: (section_offsets[index].address as u32).into(),
                     // This field has the same value as the s_paddr field.
                     s_vaddr: (section_offsets[index].address as u32).into(),
-                    s_size: (section.data.len() as u32).into(),
+                    s_size: (section.size as u32).into(),
                     s_scnptr: (section_offsets[index].data_offset as u32).into(),
                     s_relptr: (section_offsets[index].reloc_offset as u32).into(),
                     s_lnnoptr: 0.into(),
-- 
2.43.0


From b26db1d6ae963264783ce8ead75dc9d386f41a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 11/60] fix: refuse XCOFF files that do not fit the header
 fields

---
 src/write/xcoff.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 633b1c6..b60a1fd 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -347,6 +347,34 @@ impl<'a> Object<'a> {
         let strtab_len = strtab.write(&mut strtab_data, 4)?;
         offset += strtab_len as u64;
 
+        // Check that everything fits in the fields of the file format.
+        if self.sections.len() > i16::MAX as usize {
+            return Err(Error(format!(
+                "Too many sections: {:#x}",
+                self.sections.len()
+            )));
+        }
+        if !is_64 {
+            for section in &self.sections {
+                // A section with more relocations requires an STYP_OVRFLO section header.
+                if section.relocations.len() >= usize::from(u16::MAX) {
+                    return Err(Error(format!(
+                        "Too many relocations: {:#x}",
+                        section.relocations.len()
+                    )));
+                }
+                if section.size > u64::from(u32::MAX) {
+                    return Err(Error(format!("Section size overflow: {:#x}", section.size)));
+                }
+            }
+            if address > u64::from(u32::MAX) {
+                return Err(Error(format!("Address overflow: {address:#x}")));
+            }
+            if offset > u64::from(u32::MAX) {
+                return Err(Error(format!("File size overflow: {offset:#x}")));
+            }
+        }
+
         // Start writing.
         buffer
             .reserve(offset)
-- 
2.43.0


From c78a0833409af02feeebb9c493f5b3dee078003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 12/60] fix: read empty COFF symbol names

---
 src/read/coff/symbol.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/read/coff/symbol.rs b/src/read/coff/symbol.rs
index 0cc1da9..5094578 100644
--- a/src/read/coff/symbol.rs
+++ b/src/read/coff/symbol.rs
@@ -554,6 +554,10 @@ pub trait Symbol: Debug + Pod + read::private::Sealed {
         if name[0] == 0 {
             // If the name starts with 0 then the last 4 bytes are a string table offset.
             let offset = u32::from_le_bytes(name[4..8].try_into().unwrap());
+            if offset == 0 {
+                // The name is empty.
+                return Ok(&[]);
+            }
             strings
                 .get(offset)
                 .read_error("Invalid COFF symbol name offset")
-- 
2.43.0


From 5a9df37e1f4a7545f6494c6e99fb859f9d20dded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 13/60] fix: do not read XCOFF uninitialized sections from the
 file

---
 src/read/xcoff/section.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/read/xcoff/section.rs b/src/read/xcoff/section.rs
index 50ed71d..3754a51 100644
--- a/src/read/xcoff/section.rs
+++ b/src/read/xcoff/section.rs
@@ -313,7 +313,16 @@ pub trait SectionHeader: Debug + Pod + read::private::Sealed {
     }
 
     /// Return the offset and size of the section in the file.
+    ///
+    /// Returns `None` for sections that have no data in the file.
     fn file_range(&self) -> Option<(u64, u64)> {
+        if self
+            .s_flags()
+            .typ()
+            .intersects(xcoff::STYP_BSS | xcoff::STYP_TBSS)
+        {
+            return None;
+        }
         Some((self.s_scnptr().into(), self.s_size().into()))
     }
 
-- 
2.43.0


From 5c093e8010752aa3e7a901537abb42df18f10765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 14/60] fix: put COFF section names starting with a slash in
 the string table

---
 src/write/coff/object.rs |  2 +-
 src/write/coff/writer.rs | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/write/coff/object.rs b/src/write/coff/object.rs
index 0b6885a..dea117d 100644
--- a/src/write/coff/object.rs
+++ b/src/write/coff/object.rs
@@ -430,7 +430,7 @@ impl<'a> Object<'a> {
         // Add section strings to strtab.
         let mut section_offsets = vec![SectionOffsets::default(); self.sections.len()];
         for (index, section) in self.sections.iter().enumerate() {
-            section_offsets[index].name = writer.add_name(&section.name);
+            section_offsets[index].name = writer.add_section_name(&section.name);
         }
 
         // Set COMDAT flags.
diff --git a/src/write/coff/writer.rs b/src/write/coff/writer.rs
index a2797c3..489165d 100644
--- a/src/write/coff/writer.rs
+++ b/src/write/coff/writer.rs
@@ -443,6 +443,20 @@ impl<'a> Writer<'a> {
         }
     }
 
+    /// Add a section name to the string table if required.
+    ///
+    /// In addition to long names, this includes short names starting with `/`, since
+    /// in a section header those are references to the string table.
+    ///
+    /// This must be called before [`Self::reserve_symtab_strtab`].
+    pub fn add_section_name(&mut self, name: &'a [u8]) -> Name {
+        if name.first() == Some(&b'/') {
+            Name::Long(self.add_string(name))
+        } else {
+            self.add_name(name)
+        }
+    }
+
     /// Reserve the range for the symbol table and string table.
     ///
     /// This must be called after functions that reserve symbol
-- 
2.43.0


From bd8ada25e05a241e6739eec8d5bc3df3257574da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 15/60] fix: refuse XCOFF relocation sizes that cannot be
 encoded

---
 src/write/xcoff.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index b60a1fd..9778eac 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -184,6 +184,10 @@ impl<'a> Object<'a> {
                 return Err(Error(format!("unimplemented relocation {:?}", reloc)));
             }
         };
+        // The field holds the size in bits minus one, in 6 bits.
+        if size == 0 || size > 64 {
+            return Err(Error(format!("unimplemented relocation {:?}", reloc)));
+        }
         let r_rsize = size - 1;
         reloc.flags = RelocationFlags::Xcoff { r_rtype, r_rsize };
         Ok(())
@@ -210,7 +214,8 @@ impl<'a> Object<'a> {
         } else {
             return Err(Error(format!("unexpected relocation {:?}", reloc)));
         };
-        Ok(r_rsize + 1)
+        // The upper bits are flags.
+        Ok((r_rsize & 0x3f) + 1)
     }
 
     pub(crate) fn xcoff_write(&self, buffer: &mut dyn WritableBuffer) -> Result<()> {
-- 
2.43.0


From 32f6b3b5b230757e528c577ff7923b01876a03a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 16/60] fix: place COFF COMDAT symbols where they are
 recognised

---
 src/write/coff/object.rs | 56 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/src/write/coff/object.rs b/src/write/coff/object.rs
index dea117d..ef56d43 100644
--- a/src/write/coff/object.rs
+++ b/src/write/coff/object.rs
@@ -424,6 +424,55 @@ impl<'a> Object<'a> {
         self.append_section_data(drectve, &directives, 1);
     }
 
+    /// Determine the order of the symbols in the symbol table.
+    ///
+    /// This is the order they were added, except that a COMDAT symbol is moved to follow
+    /// the section symbol of its section if it isn't already the first symbol in that
+    /// section to do so, since that is how it is identified.
+    fn coff_symbol_order(&self) -> Vec<usize> {
+        let mut order: Vec<usize> = (0..self.symbols.len()).collect();
+        if self.comdats.is_empty() {
+            return order;
+        }
+
+        // For each section, the first symbol in it that follows its section symbol.
+        let mut first = vec![None; self.sections.len()];
+        for (index, symbol) in self.symbols.iter().enumerate() {
+            if let SymbolSection::Section(id) = symbol.section {
+                let section_symbol = self.sections[id.0].symbol;
+                if first[id.0].is_none() && section_symbol.is_some_and(|s| s.0 < index) {
+                    first[id.0] = Some(index);
+                }
+            }
+        }
+
+        // Move the COMDAT symbols that aren't the first.
+        let mut next = vec![None; self.symbols.len()];
+        let mut moved = vec![false; self.symbols.len()];
+        for comdat in &self.comdats {
+            let index = comdat.symbol.0;
+            if let SymbolSection::Section(id) = self.symbols[index].section {
+                if let Some(section_symbol) = self.sections[id.0].symbol {
+                    if section_symbol.0 != index
+                        && first[id.0] != Some(index)
+                        && next[section_symbol.0].is_none()
+                    {
+                        next[section_symbol.0] = Some(index);
+                        moved[index] = true;
+                    }
+                }
+            }
+        }
+        order.clear();
+        for index in 0..self.symbols.len() {
+            if !moved[index] {
+                order.push(index);
+                order.extend(next[index]);
+            }
+        }
+        order
+    }
+
     pub(crate) fn coff_write(&self, buffer: &mut dyn WritableBuffer) -> Result<()> {
         let mut writer = writer::Writer::new(buffer);
 
@@ -542,8 +591,10 @@ impl<'a> Object<'a> {
         }
 
         // Reserve symbol indices and add symbol strings to strtab.
+        let symbol_order = self.coff_symbol_order();
         let mut symbol_offsets = vec![SymbolOffsets::default(); self.symbols.len()];
-        for (index, symbol) in self.symbols.iter().enumerate() {
+        for &index in &symbol_order {
+            let symbol = &self.symbols[index];
             if symbol.weak {
                 // Reserve the weak default symbol
                 let weak_default_name = weak_default_names.get(&index).unwrap_or_else(|| {
@@ -695,7 +746,8 @@ impl<'a> Object<'a> {
         }
 
         // Write symbols.
-        for (index, symbol) in self.symbols.iter().enumerate() {
+        for &index in &symbol_order {
+            let symbol = &self.symbols[index];
             let SymbolFlags::Coff { typ, storage_class } = self.symbol_flags(symbol) else {
                 return Err(Error(format!(
                     "unimplemented symbol `{}` kind {:?}",
-- 
2.43.0


From d35222ccc4d0df50badff4f47c608d9e8b72edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 17/60] fix: adjust the addend of all relative XCOFF
 relocations

---
 src/write/xcoff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index 9778eac..f078a42 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -202,7 +202,7 @@ impl<'a> Object<'a> {
         } else {
             return Err(Error(format!("invalid relocation flags {:?}", relocation)));
         };
-        if r_rtype == xcoff::R_REL {
+        if matches!(r_rtype, xcoff::R_REL | xcoff::R_BR | xcoff::R_RBR) {
             relocation.addend += 4;
         }
         Ok(true)
-- 
2.43.0


From 467f8fc7dfe789e462456dbcbbfccc06025f51a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 18/60] fix: refuse data relocations of instruction sizes for
 Mach-O ARM64

---
 src/write/macho/object.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index dce4394..7c516ee 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -319,8 +319,11 @@ impl<'a> Object<'a> {
             return Ok(false);
         };
         let mut need_subtractor = false;
-        // Aarch64 relocs of these sizes act as if they are double-word length
-        if self.architecture == Architecture::Aarch64 && matches!(size, 12 | 21 | 26) {
+        // Aarch64 instruction relocs of these sizes act as if they are double-word length
+        if self.architecture == Architecture::Aarch64
+            && matches!(size, 12 | 21 | 26)
+            && (encoding == E::AArch64Call || kind == K::PltRelative)
+        {
             size = 32;
         }
         let r_length = match size {
-- 
2.43.0


From 37209522a8009a8b5fc222937d6c21101a52b8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 19/60] fix: return the size of Wasm sections in file_range

---
 src/read/wasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index 5c04f65..db886bc 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -884,7 +884,7 @@ impl<'data, 'file, R: ReadRef<'data>> ObjectSection<'data> for WasmSection<'data
     #[inline]
     fn file_range(&self) -> Option<(u64, u64)> {
         let range = &self.section.range;
-        Some((range.start as _, range.end as _))
+        Some((range.start as u64, (range.end - range.start) as u64))
     }
 
     #[inline]
-- 
2.43.0


From 1807d1c59a6c0a9070ce015e7a53a700e2b102de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 20/60] fix: implement data_range for Wasm sections

---
 src/read/wasm.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/read/wasm.rs b/src/read/wasm.rs
index db886bc..39ffa49 100644
--- a/src/read/wasm.rs
+++ b/src/read/wasm.rs
@@ -896,8 +896,13 @@ impl<'data, 'file, R: ReadRef<'data>> ObjectSection<'data> for WasmSection<'data
             .read_error("Invalid Wasm section size or offset")
     }
 
-    fn data_range(&self, _address: u64, _size: u64) -> Result<Option<&'data [u8]>> {
-        unimplemented!()
+    fn data_range(&self, address: u64, size: u64) -> Result<Option<&'data [u8]>> {
+        Ok(read::util::data_range(
+            self.data()?,
+            self.address(),
+            address,
+            size,
+        ))
     }
 
     #[inline]
-- 
2.43.0


From f19fb8289b6bbedaba9e1e192a990792b5b60444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 21/60] fix: stop enumerating an invalid Mach-O exports trie

An error while reading an edge was reported again forever, and a trie with
several edges to the same nodes could take exponential time to traverse.
---
 src/read/macho/exports_trie.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/read/macho/exports_trie.rs b/src/read/macho/exports_trie.rs
index 181f18f..984fb99 100644
--- a/src/read/macho/exports_trie.rs
+++ b/src/read/macho/exports_trie.rs
@@ -115,6 +115,9 @@ struct NodeIterator<'data> {
     data: &'data [u8],
     first: bool,
     stack: Vec<Frame<'data>>,
+    // Each node is only visited once in a valid trie. This limits the number of
+    // visits in an invalid trie that has multiple edges to the same nodes.
+    nodes_remaining: usize,
     // Accumulates the prefix edge strings as we traverse the trie.
     name_buf: Vec<u8>,
 }
@@ -126,11 +129,16 @@ impl<'data> NodeIterator<'data> {
             data,
             first: true,
             stack: Vec::new(),
+            nodes_remaining: data.len(),
             name_buf: Vec::new(),
         }
     }
 
     fn push_node(&mut self, offset: u64) -> Result<Option<ExportSymbol<'data>>> {
+        if self.nodes_remaining == 0 {
+            return Err(Error("Too many exports trie nodes"));
+        }
+        self.nodes_remaining -= 1;
         let mut data = Bytes(
             self.data
                 .get(offset as usize..)
@@ -207,7 +215,12 @@ impl<'data> Iterator for NodeIterator<'data> {
     type Item = Result<Option<ExportSymbol<'data>>>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.next().transpose()
+        let result = self.next();
+        if result.is_err() {
+            // Do not report the same error again.
+            self.stack.clear();
+        }
+        result.transpose()
     }
 }
 
-- 
2.43.0


From 478a3d40a40605197062609d5df26eb2b6331a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 22/60] fix: do not panic for an invalid shift in the ELF GNU
 hash table

---
 src/read/elf/hash.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/elf/hash.rs b/src/read/elf/hash.rs
index 68803d9..2fe42b6 100644
--- a/src/read/elf/hash.rs
+++ b/src/read/elf/hash.rs
@@ -211,7 +211,8 @@ impl<'data, Elf: FileHeader> GnuHashTable<'data, Elf> {
         if filter & (1 << (hash % word_bits)) == 0 {
             return None;
         }
-        if filter & (1 << ((hash >> self.bloom_shift) % word_bits)) == 0 {
+        let shifted_hash = hash.checked_shr(self.bloom_shift).unwrap_or(0);
+        if filter & (1 << (shifted_hash % word_bits)) == 0 {
             return None;
         }
 
-- 
2.43.0


From c8eb17e8b7c6593983a7b87b7b4f805e162260d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 23/60] fix: treat ELF DT_AUDIT, DT_DEPAUDIT and DT_CONFIG as
 strings

Their values are offsets in the dynamic string table, which the ELF builder
rewrites.
---
 src/read/elf/dynamic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/read/elf/dynamic.rs b/src/read/elf/dynamic.rs
index 676e7b3..4d12f52 100644
--- a/src/read/elf/dynamic.rs
+++ b/src/read/elf/dynamic.rs
@@ -285,6 +285,9 @@ fn tag_is_string(tag: elf::DynamicTag) -> bool {
         | elf::DT_SONAME
         | elf::DT_RPATH
         | elf::DT_RUNPATH
+        | elf::DT_CONFIG
+        | elf::DT_DEPAUDIT
+        | elf::DT_AUDIT
         | elf::DT_AUXILIARY
         | elf::DT_FILTER => true,
         _ => false,
-- 
2.43.0


From 60fdbb92497d24b504780121315d2438f359e512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 24/60] fix: accept sh_addralign of 0 in the ELF builder

The value is valid, is used by sections that have no alignment constraint, and
is the default for added sections.
---
 src/build/elf.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index d82789d..ad64b82 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -763,7 +763,8 @@ impl<'data> Builder<'data> {
         struct Offset(u64);
         impl Offset {
             fn reserve(&mut self, size: u64, align: u64) -> (u64, u64) {
-                self.0 = write::align(self.0, align);
+                // An alignment of 0 means that there is no alignment constraint.
+                self.0 = write::align(self.0, align.max(1));
                 let offset = self.0;
                 self.0 += size;
                 (offset, size)
@@ -2399,7 +2400,8 @@ impl<'data> Segment<'data> {
     pub fn append_section(&mut self, section: &mut Section<'_>) {
         debug_assert_eq!(self.p_filesz, self.p_memsz);
         if self.p_type == elf::PT_LOAD {
-            let align = section.sh_addralign;
+            // An alignment of 0 means that there is no alignment constraint.
+            let align = section.sh_addralign.max(1);
             let offset = (self.p_offset + self.p_filesz + (align - 1)) & !(align - 1);
             let addr = (self.p_paddr + self.p_memsz + (align - 1)) & !(align - 1);
             section.sh_offset = offset;
-- 
2.43.0


From f1cd48e3206a142474750e16340e1b32b08e6db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 25/60] fix: use the virtual address of the segment in
 append_section

---
 src/build/elf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index ad64b82..ec11ff0 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -2403,7 +2403,7 @@ impl<'data> Segment<'data> {
             // An alignment of 0 means that there is no alignment constraint.
             let align = section.sh_addralign.max(1);
             let offset = (self.p_offset + self.p_filesz + (align - 1)) & !(align - 1);
-            let addr = (self.p_paddr + self.p_memsz + (align - 1)) & !(align - 1);
+            let addr = (self.p_vaddr + self.p_memsz + (align - 1)) & !(align - 1);
             section.sh_offset = offset;
             section.sh_addr = addr;
         }
-- 
2.43.0


From ef64b0e7ed5dc6fb60827290327c27007833cdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 26/60] fix: update library ordinals in the Mach-O builder

---
 src/build/macho.rs | 49 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index ee37745..386ac50 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -431,12 +431,22 @@ impl<'data> Builder<'data> {
             } else {
                 None
             };
+            let dylib = if self.header.flags.contains(macho::MH_TWOLEVEL) && nlist.is_undefined() {
+                nlist
+                    .library_ordinal(endian)
+                    .index()
+                    .map(|ordinal| usize::from(ordinal) - 1)
+                    .filter(|index| *index < state.dylibs_len)
+                    .map(DylibId)
+            } else {
+                None
+            };
             self.symbols.push(Symbol {
                 id,
                 delete: false,
                 name: symbols.symbol_name(endian, nlist)?.into(),
                 section,
-                dylib: None, // TODO
+                dylib,
                 n_type: nlist.n_type(),
                 n_sect: nlist.n_sect(),
                 n_desc: nlist.n_desc(endian),
@@ -593,11 +603,15 @@ impl<'data> Builder<'data> {
             }
         }
         let mut have_symtab = false;
-        let mut dylib_referenced = vec![false; self.dylibs.len()];
+        let mut out_dylibs_index = vec![None; self.dylibs.len()];
+        let mut out_dylibs_count = 0;
         for command in &self.commands {
             match command {
                 LoadCommand::Symtab => have_symtab = true,
-                LoadCommand::Dylib(id) => dylib_referenced[id.index()] = true,
+                LoadCommand::Dylib(id) => {
+                    out_dylibs_count += 1;
+                    out_dylibs_index[id.index()] = Some(out_dylibs_count);
+                }
                 _ => {}
             }
         }
@@ -606,11 +620,28 @@ impl<'data> Builder<'data> {
                 "Symbols are present but there is no symtab load command",
             ));
         }
-        for (index, referenced) in dylib_referenced.iter().enumerate() {
-            if !referenced && !self.dylibs.get(DylibId(index)).delete {
+        for (index, out_index) in out_dylibs_index.iter().enumerate() {
+            if out_index.is_none() && !self.dylibs.get(DylibId(index)).delete {
                 return Err(Error::new("Dylib is not referenced by a load command"));
             }
         }
+        for symbol in &self.symbols {
+            let Some(id) = symbol.dylib else {
+                continue;
+            };
+            match out_dylibs_index[id.0] {
+                None => {
+                    return Err(Error(format!(
+                        "Symbol `{}` references a deleted dylib",
+                        symbol.name
+                    )));
+                }
+                Some(ordinal) if ordinal > u32::from(macho::MAX_LIBRARY_ORDINAL) => {
+                    return Err(Error::new("Too many dylibs"));
+                }
+                Some(_) => {}
+            }
+        }
 
         // Start calculating offsets of everything.
         let encoder = self.encoder();
@@ -1067,12 +1098,18 @@ impl<'data> Builder<'data> {
             } else {
                 symbol.n_sect
             };
+            let n_desc = if let Some(id) = symbol.dylib {
+                let ordinal = out_dylibs_index[id.0].unwrap_or(0) as u8;
+                symbol.n_desc.with_library(macho::SymbolLibrary(ordinal))
+            } else {
+                symbol.n_desc
+            };
             let n_strx = out_symbol.name.map(|id| strtab.get_offset(id)).unwrap_or(0);
             let nlist = &write::macho::Nlist {
                 n_strx,
                 n_type: symbol.n_type,
                 n_sect,
-                n_desc: symbol.n_desc,
+                n_desc,
                 n_value: symbol.n_value,
             };
             encoder.nlist(buffer, nlist);
-- 
2.43.0


From 515c4e1a259b82c945410f04fd9747f668c80e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 27/60] fix: check all sections in Mach-O
 delete_orphan_relocations

---
 src/build/macho.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 386ac50..367f7da 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -1188,11 +1188,10 @@ impl<'data> Builder<'data> {
     /// Delete relocations that refer to deleted symbols.
     pub fn delete_orphan_relocations(&mut self) {
         let symbols = &self.symbols;
-        let sections = self
-            .sections
-            .iter()
-            .map(|section| section.delete)
-            .collect::<Vec<bool>>();
+        let mut sections = vec![true; self.sections.len()];
+        for section in &self.sections {
+            sections[section.id.0] = false;
+        }
         for section in &mut self.sections {
             section
                 .relocations
-- 
2.43.0


From 6c2a93ccf086bf688488249c50c386d297ae0629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 28/60] fix: check for space for load commands in the Mach-O
 builder

---
 src/build/macho.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 367f7da..aac9202 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -749,6 +749,12 @@ impl<'data> Builder<'data> {
                     match &section.data {
                         SectionData::Data(data) => {
                             out_section.offset = (section.addr - segment.vmaddr) + segment_offset;
+                            if out_section.offset < command_offset + sizeofcmds {
+                                return Err(Error(format!(
+                                    "Load commands overlap section at address {:#x}",
+                                    section.addr
+                                )));
+                            }
                             out_segment.size = (section.addr - segment.vmaddr) + data.len() as u64;
                         }
                         SectionData::UninitializedData(_) => {
-- 
2.43.0


From b276b0bd24404d43438e29720f1d4398ec97a129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 29/60] fix: refuse to delete indirect symbols in the Mach-O
 builder

---
 src/build/macho.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index aac9202..d1eaf20 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -601,6 +601,16 @@ impl<'data> Builder<'data> {
             if out_sections_index[section.id().index()].is_none() {
                 return Err(Error::new("Section is not referenced by a segment"));
             }
+            for indirect_symbol in &section.indirect_symbols {
+                if let IndirectSymbol::Symbol(id) = indirect_symbol {
+                    if out_symbols_index[id.0].is_none() {
+                        return Err(Error(format!(
+                            "Indirect symbol references deleted symbol `{}`",
+                            self.symbols.get(*id).name
+                        )));
+                    }
+                }
+            }
         }
         let mut have_symtab = false;
         let mut out_dylibs_index = vec![None; self.dylibs.len()];
@@ -1129,6 +1139,7 @@ impl<'data> Builder<'data> {
                     let indirect_symbol = match indirect_symbol {
                         IndirectSymbol::Flags(flags) => *flags,
                         IndirectSymbol::Symbol(symbol_id) => {
+                            // Already checked that this isn't deleted.
                             let symbol_index = out_symbols_index[symbol_id.0].unwrap_or(0);
                             macho::IndirectSymbol(symbol_index as u32)
                         }
-- 
2.43.0


From 2f99a78c2f6adee9a975ceae67e20546fe0f2bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 30/60] fix: do not truncate zerofill section sizes in the
 Mach-O builder

---
 src/build/macho.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index d1eaf20..530fdab 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -336,11 +336,13 @@ impl<'data> Builder<'data> {
         R: ReadRef<'data>,
     {
         let id = self.sections.next_id();
-        let size = section.size(endian).into();
+        let size: u64 = section.size(endian).into();
         let section_data = if section.file_size(endian).is_some() {
             SectionData::Data(section.data(endian, data, offset)?.into())
         } else {
-            SectionData::UninitializedData(size as u32)
+            let size = u32::try_from(size)
+                .map_err(|_| Error(format!("Unsupported zerofill section size {size:#x}")))?;
+            SectionData::UninitializedData(size)
         };
         let mut relocations = Vec::new();
         for relocation in section.relocations(endian, data)? {
-- 
2.43.0


From a290d572929700c18ff0b6f4e28fa10282a6dae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:11 +0000
Subject: [PATCH 31/60] fix: refuse scattered relocations in the Mach-O builder

---
 src/build/macho.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 530fdab..1c784c4 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -346,6 +346,12 @@ impl<'data> Builder<'data> {
         };
         let mut relocations = Vec::new();
         for relocation in section.relocations(endian, data)? {
+            if relocation.r_scattered(endian, self.header.cputype) {
+                return Err(Error(format!(
+                    "Unimplemented scattered relocation for section at index {}",
+                    self.sections.len(),
+                )));
+            }
             let relocation = relocation.info(endian);
             let r_symbolnum = relocation.r_symbolnum as usize;
             let target = if relocation.r_extern {
-- 
2.43.0


From 970188a8828660d89d187813f5c5d68db14ec00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 32/60] fix: use segment index instead of ID in the Mach-O
 builder

---
 src/build/macho.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 1c784c4..67b599b 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -670,7 +670,8 @@ impl<'data> Builder<'data> {
         let command_offset = offset.0;
         for command in &self.commands {
             let size = match command {
-                LoadCommand::Segment(id) => encoder.segment_command_size(out_segments[id.0].nsects),
+                LoadCommand::Segment(id) => encoder
+                    .segment_command_size(out_segments[out_segments_index[id.0].unwrap()].nsects),
                 LoadCommand::Symtab => encoder.symtab_command_size(),
                 LoadCommand::Dysymtab => encoder.dysymtab_command_size(),
                 LoadCommand::Dylib(id) => {
@@ -862,7 +863,7 @@ impl<'data> Builder<'data> {
             if let LoadCommand::Segment(id) = command {
                 let segment = self.segments.get(*id);
                 if segment.segname() == b"__LINKEDIT" {
-                    let out_segment = &mut out_segments[id.0];
+                    let out_segment = &mut out_segments[out_segments_index[id.0].unwrap()];
                     out_segment.offset = linkedit_offset;
                     out_segment.size = linkedit_filesize;
                     out_segment.vmsize = linkedit_vmsize;
@@ -900,7 +901,7 @@ impl<'data> Builder<'data> {
             match *command {
                 LoadCommand::Segment(id) => {
                     let segment = self.segments.get(id);
-                    let out_segment = &out_segments[id.0];
+                    let out_segment = &out_segments[out_segments_index[id.0].unwrap()];
                     let cmd = &write::macho::SegmentCommand {
                         segname: segment.segname,
                         vmaddr: segment.vmaddr,
-- 
2.43.0


From 796906de486e10dfd9ad954e0c1d14cd0a91b76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 33/60] fix: assign section addresses in the Mach-O builder

---
 src/build/macho.rs | 73 +++++++++++++++++++++++++++++++---------------
 1 file changed, 49 insertions(+), 24 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 67b599b..fd41c43 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -467,7 +467,8 @@ impl<'data> Builder<'data> {
     /// Write the Mach-O file to the buffer.
     ///
     /// For object files, there must be a single segment. This function will assign addresses
-    /// to sections.
+    /// to sections, keeping the existing address unless it overlaps another section.
+    /// The values of symbols are adjusted if the address of their section changes.
     ///
     /// For dylibs/executables, segment and section addresses must already be assigned.
     /// Segment sizes will be calculated based on their contents. The first segment
@@ -702,29 +703,46 @@ impl<'data> Builder<'data> {
             // Section data can immediately follow the load commands without any alignment padding.
             let segment_file_offset = offset.0;
             // Reserve segment data in the same order as `segment.sections`.
-            // Addresses are also assigned in this order, except that zerofill sections come last.
-            let mut address = 0;
+            let mut size = 0;
             for out_section in &mut out_sections {
                 let section = self.sections.get(out_section.id);
                 if let SectionData::Data(data) = &section.data {
-                    let align = 1 << section.align;
-                    address = write::align(address, align);
-                    out_section.address = address;
-                    out_section.offset = segment_file_offset + address;
-                    address += data.len() as u64;
+                    size = write::align(size, 1 << section.align);
+                    out_section.offset = segment_file_offset + size;
+                    size += data.len() as u64;
                 }
             }
-            out_segment.set_range(offset.reserve(address, 1));
-            for out_section in &mut out_sections {
-                let section = self.sections.get(out_section.id);
-                if let SectionData::UninitializedData(size) = &section.data {
-                    let align = 1 << section.align;
-                    address = write::align(address, align);
-                    out_section.address = address;
-                    address += u64::from(*size);
+            out_segment.set_range(offset.reserve(size, 1));
+
+            // Keep existing addresses if possible, because section data may depend on them.
+            // Sections that overlap a preceding section are moved to the end.
+            let mut used = Vec::new();
+            let mut moved = Vec::new();
+            let mut address = 0;
+            for section in &self.sections {
+                let size = section.data.size() as u64;
+                let start = section.addr;
+                let end = start.saturating_add(size);
+                if start % (1 << section.align) != 0
+                    || used
+                        .iter()
+                        .any(|(used_start, used_end)| start < *used_end && *used_start < end)
+                {
+                    moved.push(section);
+                } else {
+                    if size != 0 {
+                        used.push((start, end));
+                    }
+                    address = address.max(end);
+                    out_sections[out_sections_index[section.id.0].unwrap() - 1].address = start;
                 }
             }
-            out_segment.vmsize = address;
+            for section in moved {
+                address = write::align(address, 1 << section.align);
+                out_sections[out_sections_index[section.id.0].unwrap() - 1].address = address;
+                address += section.data.size() as u64;
+            }
+            out_segment.vmsize = address.max(size);
 
             for out_section in &mut out_sections {
                 let section = self.sections.get(out_section.id);
@@ -921,7 +939,7 @@ impl<'data> Builder<'data> {
                         let header = &write::macho::SectionHeader {
                             sectname: section.sectname,
                             segname: section.segname,
-                            addr: section.addr,
+                            addr: out_section.address,
                             size: section.data.size() as u64,
                             offset: out_section.offset as u32,
                             align: section.align,
@@ -1118,11 +1136,18 @@ impl<'data> Builder<'data> {
         buffer.resize(symoff);
         for out_symbol in &out_symbols {
             let symbol = self.symbols.get(out_symbol.id);
-            let n_sect = if let Some(id) = symbol.section {
-                out_sections_index[id.0].unwrap_or(0) as u8
-            } else {
-                symbol.n_sect
-            };
+            let mut n_sect = symbol.n_sect;
+            let mut n_value = symbol.n_value;
+            if let Some(id) = symbol.section {
+                let section_index = out_sections_index[id.0].unwrap_or(0);
+                n_sect = section_index as u8;
+                if section_index != 0 {
+                    // Adjust the symbol if the section address changed.
+                    let old_address = self.sections.get(id).addr;
+                    let new_address = out_sections[section_index - 1].address;
+                    n_value = n_value.wrapping_sub(old_address).wrapping_add(new_address);
+                }
+            }
             let n_desc = if let Some(id) = symbol.dylib {
                 let ordinal = out_dylibs_index[id.0].unwrap_or(0) as u8;
                 symbol.n_desc.with_library(macho::SymbolLibrary(ordinal))
@@ -1135,7 +1160,7 @@ impl<'data> Builder<'data> {
                 n_type: symbol.n_type,
                 n_sect,
                 n_desc,
-                n_value: symbol.n_value,
+                n_value,
             };
             encoder.nlist(buffer, nlist);
         }
-- 
2.43.0


From 64f9b3c03d450b5eba32fbfe55480906bee1a256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:06 +0000
Subject: [PATCH 34/60] fix: update sections of debugging symbols in the Mach-O
 builder

---
 src/build/macho.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index fd41c43..7cbfdf2 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -430,7 +430,24 @@ impl<'data> Builder<'data> {
     {
         for nlist in symbols.iter() {
             let id = self.symbols.next_id();
-            let section = if nlist.n_type().typ() == macho::N_SECT {
+            let has_section = match nlist.stab() {
+                Some(
+                    macho::N_FUN
+                    | macho::N_STSYM
+                    | macho::N_LCSYM
+                    | macho::N_BNSYM
+                    | macho::N_SLINE
+                    | macho::N_ENSYM
+                    | macho::N_SO
+                    | macho::N_SOL
+                    | macho::N_ENTRY
+                    | macho::N_ECOMM
+                    | macho::N_ECOML,
+                ) => nlist.n_sect() != 0,
+                Some(_) => false,
+                None => nlist.n_type().typ() == macho::N_SECT,
+            };
+            let section = if has_section {
                 let section_id = usize::from(nlist.n_sect()).wrapping_sub(1);
                 if section_id >= state.sections_len {
                     return Err(Error::new("Invalid symbol section index"));
-- 
2.43.0


From e1c9f48e9c8b93283f2b079fe2083e111e9bb64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:41 +0000
Subject: [PATCH 35/60] fix: keep Mach-O relocation pairs together in the
 builder

---
 src/build/macho.rs | 57 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 7cbfdf2..7b16a81 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -354,7 +354,9 @@ impl<'data> Builder<'data> {
             }
             let relocation = relocation.info(endian);
             let r_symbolnum = relocation.r_symbolnum as usize;
-            let target = if relocation.r_extern {
+            let target = if self.header.is_reloc_addend(relocation.r_type) {
+                RelocationTarget::Addend(relocation.r_symbolnum)
+            } else if relocation.r_extern {
                 if r_symbolnum >= state.symbols_len {
                     return Err(Error(format!(
                         "Invalid symbol index {} in relocation for section at index {}",
@@ -1107,6 +1109,7 @@ impl<'data> Builder<'data> {
                         RelocationTarget::Section(id) => {
                             (false, out_sections_index[id.0].unwrap_or(0) as u32)
                         }
+                        RelocationTarget::Addend(addend) => (false, addend),
                     };
 
                     let reloc_info = macho::RelocationInfo {
@@ -1253,20 +1256,33 @@ impl<'data> Builder<'data> {
         }
     }
 
-    /// Delete relocations that refer to deleted symbols.
+    /// Delete relocations that refer to deleted symbols or sections.
+    ///
+    /// Relocations that are part of a pair are deleted together.
     pub fn delete_orphan_relocations(&mut self) {
         let symbols = &self.symbols;
         let mut sections = vec![true; self.sections.len()];
         for section in &self.sections {
             sections[section.id.0] = false;
         }
+        let keep = |relocation: &Relocation| match relocation.target {
+            RelocationTarget::Symbol(id) => !symbols.get(id).delete,
+            RelocationTarget::Section(id) => !sections[id.0],
+            RelocationTarget::Addend(_) => true,
+        };
         for section in &mut self.sections {
-            section
-                .relocations
-                .retain(|relocation| match relocation.target {
-                    RelocationTarget::Symbol(id) => !symbols.get(id).delete,
-                    RelocationTarget::Section(id) => !sections[id.0],
-                });
+            let mut relocations = mem::take(&mut section.relocations).into_iter();
+            while let Some(relocation) = relocations.next() {
+                if self.header.is_reloc_pair(relocation.r_type) {
+                    let pair = relocations.next();
+                    if keep(&relocation) && pair.as_ref().map_or(true, keep) {
+                        section.relocations.push(relocation);
+                        section.relocations.extend(pair);
+                    }
+                } else if keep(&relocation) {
+                    section.relocations.push(relocation);
+                }
+            }
         }
     }
 
@@ -1314,6 +1330,27 @@ pub struct Header {
     pub flags: macho::FileFlags,
 }
 
+impl Header {
+    /// Return true if `r_symbolnum` is the addend for the following relocation.
+    fn is_reloc_addend(&self, r_type: macho::RelocationType) -> bool {
+        matches!(
+            self.cputype,
+            macho::CPU_TYPE_ARM64 | macho::CPU_TYPE_ARM64_32
+        ) && r_type == macho::ARM64_RELOC_ADDEND
+    }
+
+    /// Return true if this is the first relocation of a pair.
+    fn is_reloc_pair(&self, r_type: macho::RelocationType) -> bool {
+        match self.cputype {
+            macho::CPU_TYPE_X86_64 => r_type == macho::X86_64_RELOC_SUBTRACTOR,
+            macho::CPU_TYPE_ARM64 | macho::CPU_TYPE_ARM64_32 => {
+                r_type == macho::ARM64_RELOC_SUBTRACTOR || r_type == macho::ARM64_RELOC_ADDEND
+            }
+            _ => false,
+        }
+    }
+}
+
 /// A Mach-O Load command.
 ///
 /// This corresponds to [`macho::LoadCommand`] and its many variants.
@@ -1656,6 +1693,10 @@ pub enum RelocationTarget {
     Symbol(SymbolId),
     /// A section.
     Section(SectionId),
+    /// An addend for the following relocation.
+    ///
+    /// This is used for [`macho::ARM64_RELOC_ADDEND`]. The value must fit in 24 bits.
+    Addend(u32),
 }
 
 /// An ID for referring to a symbol in [`Symbols`].
-- 
2.43.0


From bb48de04dc09ce1b2de7380b5f7306a2832772fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:12 +0000
Subject: [PATCH 36/60] fix: forget unfinished functions in the Mach-O object
 map

If the name of a N_FUN symbol could not be read then the start of one
function could be combined with the end of another, possibly in a
different object.
---
 src/read/macho/symbol.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/read/macho/symbol.rs b/src/read/macho/symbol.rs
index 9bb148b..599e8f7 100644
--- a/src/read/macho/symbol.rs
+++ b/src/read/macho/symbol.rs
@@ -157,18 +157,21 @@ impl<'data, Mach: MachHeader, R: ReadRef<'data>> SymbolTable<'data, Mach, R> {
                     }
                 }
                 macho::N_FUN => {
-                    if let Ok(name) = nlist.name(endian, self.strings) {
-                        if !name.is_empty() {
-                            current_function = Some((name, nlist.n_value(endian).into()))
-                        } else if let Some((name, address)) = current_function.take() {
-                            if let Some(object) = object {
-                                symbols.push(ObjectMapEntry::new(
-                                    address,
-                                    nlist.n_value(endian).into(),
-                                    name,
-                                    object,
-                                ));
-                            }
+                    let Ok(name) = nlist.name(endian, self.strings) else {
+                        // Don't pair the start of one function with the end of another.
+                        current_function = None;
+                        continue;
+                    };
+                    if !name.is_empty() {
+                        current_function = Some((name, nlist.n_value(endian).into()))
+                    } else if let Some((name, address)) = current_function.take() {
+                        if let Some(object) = object {
+                            symbols.push(ObjectMapEntry::new(
+                                address,
+                                nlist.n_value(endian).into(),
+                                name,
+                                object,
+                            ));
                         }
                     }
                 }
-- 
2.43.0


From dc1da3023226032c32459544bec174705b40b0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:40 +0000
Subject: [PATCH 37/60] fix: count ELF symbols that are defined in a section

The st_shndx of symbols added to the builder is normally 0, so
gnu_hash_size ignored them.
---
 src/build/elf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index ec11ff0..a4da605 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -2868,7 +2868,7 @@ impl<'data, const DYNAMIC: bool> Symbols<'data, DYNAMIC> {
     /// Number of defined symbols.
     pub fn count_defined(&self) -> usize {
         self.into_iter()
-            .filter(|symbol| symbol.st_shndx != elf::SHN_UNDEF)
+            .filter(|symbol| symbol.section.is_some() || symbol.st_shndx != elf::SHN_UNDEF)
             .count()
     }
 
-- 
2.43.0


From dcbafe30b3b0b0f894d9eef8990699c6cc6e5a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 38/60] fix: do not find the ELF null section by name

---
 src/read/elf/section.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/elf/section.rs b/src/read/elf/section.rs
index 0499625..0992264 100644
--- a/src/read/elf/section.rs
+++ b/src/read/elf/section.rs
@@ -92,13 +92,14 @@ impl<'data, Elf: FileHeader, R: ReadRef<'data>> SectionTable<'data, Elf, R> {
 
     /// Return the section header with the given name.
     ///
-    /// Ignores sections with invalid names.
+    /// Ignores the null section and sections with invalid names.
     pub fn section_by_name(
         &self,
         endian: Elf::Endian,
         name: &[u8],
     ) -> Option<(SectionIndex, &'data Elf::SectionHeader)> {
         self.enumerate()
+            .skip(1)
             .find(|(_, section)| self.section_name(endian, section) == Ok(name))
     }
 
-- 
2.43.0


From d98397c376809358a499a6dc7485f5eb0d2ab995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 39/60] fix: accept an empty Mach-O exports trie

---
 src/read/macho/exports_trie.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/macho/exports_trie.rs b/src/read/macho/exports_trie.rs
index 984fb99..9ba89a9 100644
--- a/src/read/macho/exports_trie.rs
+++ b/src/read/macho/exports_trie.rs
@@ -127,7 +127,8 @@ impl<'data> NodeIterator<'data> {
     pub(super) fn new(data: &'data [u8]) -> Self {
         NodeIterator {
             data,
-            first: true,
+            // There is no root node if there are no exports.
+            first: !data.is_empty(),
             stack: Vec::new(),
             nodes_remaining: data.len(),
             name_buf: Vec::new(),
-- 
2.43.0


From d1528c55cd85d957c90f246ec11a4af866dd9d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 40/60] fix: end the list of ELF version definition names

---
 src/write/elf/writer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/write/elf/writer.rs b/src/write/elf/writer.rs
index bf35572..2f24a23 100644
--- a/src/write/elf/writer.rs
+++ b/src/write/elf/writer.rs
@@ -849,7 +849,8 @@ impl<'a, M: Mode> Writer<'a, M> {
         self.gnu_verdef_remaining -= 1;
 
         debug_assert_ne!(verdef.aux_count, 0);
-        self.gnu_verdaux_remaining = verdef.aux_count;
+        // The first auxiliary entry is written with the definition.
+        self.gnu_verdaux_remaining = verdef.aux_count - 1;
         self.written_verdaux_count += usize::from(verdef.aux_count);
         M::set_count(&mut self.gnu_verdaux_count, self.written_verdaux_count);
 
-- 
2.43.0


From b2d01e59233f0f01113700271f95004032b05abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 41/60] fix: use SHT_RELR for ELF relative relocations

---
 src/write/elf/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write/elf/encoder.rs b/src/write/elf/encoder.rs
index 2b8c37b..656e0c7 100644
--- a/src/write/elf/encoder.rs
+++ b/src/write/elf/encoder.rs
@@ -865,7 +865,7 @@ impl<E: Endian> Encoder<E> {
     /// The caller must set `sh_name`, `sh_offset`, and `sh_size`.
     pub fn relative_relocation_section_header(self) -> SectionHeader {
         SectionHeader {
-            sh_type: elf::SHT_RELA,
+            sh_type: elf::SHT_RELR,
             sh_addralign: self.address_size(),
             sh_entsize: self.relr_size(),
             ..SectionHeader::default()
-- 
2.43.0


From fd3356840d24025834109f2832f70f88791f32d5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:30:23 +0000
Subject: [PATCH 42/60] fix: read compressed Mach-O sections from the file that
 contains them

---
 src/read/macho/section.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/macho/section.rs b/src/read/macho/section.rs
index e0a0578..c59a9f3 100644
--- a/src/read/macho/section.rs
+++ b/src/read/macho/section.rs
@@ -181,7 +181,7 @@ where
     }
 
     fn compressed_data(&self) -> read::Result<CompressedData<'data>> {
-        self.compressed_file_range()?.data(self.file.data.0)
+        self.compressed_file_range()?.data(self.internal.data)
     }
 
     #[inline]
-- 
2.43.0


From 89df72ddc8fbfd867ef3508f84d6166ca0337dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:30:23 +0000
Subject: [PATCH 43/60] fix: update PT_PHDR, PT_INTERP and PT_DYNAMIC sizes
 when no section moves

---
 crates/rewrite/src/elf.rs | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/crates/rewrite/src/elf.rs b/crates/rewrite/src/elf.rs
index 4b7131f..40f91bf 100644
--- a/crates/rewrite/src/elf.rs
+++ b/crates/rewrite/src/elf.rs
@@ -658,6 +658,7 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
     loop {
         let mut move_sections = find_move_sections(builder, added_segments)?;
         if move_sections.is_empty() {
+            update_segments(builder);
             return Ok(());
         }
 
@@ -798,16 +799,37 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
             );
         }
 
-        // Update the PT_PHDR segment to include the new program headers.
-        let size = builder.program_headers_size();
-        for segment in &mut builder.segments {
-            if segment.p_type != elf::PT_PHDR {
-                continue;
+        update_segments(builder);
+        return Ok(());
+    }
+}
+
+/// Update the sizes of segments after modifying the program headers or sections.
+///
+/// This handles segments that are not affected by moving sections.
+fn update_segments(builder: &mut build::elf::Builder) {
+    let program_headers_size = builder.program_headers_size();
+    let sections = &builder.sections;
+    for segment in &mut builder.segments {
+        match segment.p_type {
+            elf::PT_PHDR => {
+                // Program headers may have been added or deleted.
+                segment.p_filesz = program_headers_size;
+                segment.p_memsz = program_headers_size;
+            }
+            elf::PT_INTERP | elf::PT_DYNAMIC => {
+                // The section may have grown without needing to move.
+                for id in &segment.sections {
+                    let section = sections.get(*id);
+                    let size = section.sh_addr + section.sh_size - segment.p_vaddr;
+                    if segment.p_memsz < size {
+                        segment.p_filesz += size - segment.p_memsz;
+                        segment.p_memsz = size;
+                    }
+                }
             }
-            segment.p_filesz = size;
-            segment.p_memsz = size;
+            _ => {}
         }
-        return Ok(());
     }
 }
 
-- 
2.43.0


From c42838c250fad81c382185616d4d655f12c80129 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:30:23 +0000
Subject: [PATCH 44/60] fix: refuse multiple Mach-O symtab load commands in the
 builder

---
 src/build/macho.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index 7b16a81..ed62242 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -136,6 +136,7 @@ impl<'data> Builder<'data> {
             dylibs_len: 0,
             indirect_symbols: &[][..],
         };
+        let mut have_symtab = false;
         let mut page_size_bits = builder.page_size.trailing_zeros();
         let mut commands = header.load_commands(endian, data, 0)?;
         while let Some(command) = commands.next()? {
@@ -152,6 +153,10 @@ impl<'data> Builder<'data> {
                     page_size_bits = page_size_bits.min(fileoff.trailing_zeros());
                 }
                 LoadCommandVariant::Symtab(symtab) => {
+                    if have_symtab {
+                        return Err(Error::new("Multiple symtab load commands"));
+                    }
+                    have_symtab = true;
                     state.symbols_len = symtab.nsyms.get(endian) as usize;
                 }
                 LoadCommandVariant::Dysymtab(dysymtab) => {
-- 
2.43.0


From 6850b81fbc6b139164f93508644510ffc983c3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:30:23 +0000
Subject: [PATCH 45/60] fix: return dyld cache relocation offsets within the
 mapping

---
 src/read/macho/dyld_cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index a5de2ac..27aa158 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -704,7 +704,7 @@ where
                     let value = pointer & !self.delta_mask;
                     if value != 0 {
                         return Ok(Some(DyldRelocation {
-                            offset,
+                            offset: self.page_offset + offset,
                             value: value.wrapping_add(self.value_add),
                             auth: None,
                         }));
-- 
2.43.0


From 6c0ecaf545a1433b8a6159a48a03e4f278aa2907 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:30:23 +0000
Subject: [PATCH 46/60] fix: handle a zero delta mask in dyld cache slide info

---
 src/read/macho/dyld_cache.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index 27aa158..01b4557 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -687,7 +687,10 @@ where
                         .read_error("Invalid dyld cache slide pointer offset")?
                         .get(self.endian);
 
-                    let next = (pointer & self.delta_mask) >> self.delta_shift;
+                    // The shift is out of range if the mask is 0.
+                    let next = (pointer & self.delta_mask)
+                        .checked_shr(self.delta_shift)
+                        .unwrap_or(0);
                     if next == 0 {
                         if self.state == RelocationStateV2::PageExtra {
                             self.state = RelocationStateV2::Extra
-- 
2.43.0


From ed297c14731398444dace51101650b91a764b7ad Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:30:23 +0000
Subject: [PATCH 47/60] fix: end the dyld cache relocation iterator after an
 error

---
 src/read/macho/dyld_cache.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/read/macho/dyld_cache.rs b/src/read/macho/dyld_cache.rs
index 01b4557..f1d9925 100644
--- a/src/read/macho/dyld_cache.rs
+++ b/src/read/macho/dyld_cache.rs
@@ -578,13 +578,16 @@ where
     type Item = Result<DyldRelocation>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match &mut self.version {
+        let result = match &mut self.version {
             DyldCacheRelocationIteratorVersion::None => Ok(None),
             DyldCacheRelocationIteratorVersion::V2(iter) => iter.next(),
             DyldCacheRelocationIteratorVersion::V3(iter) => iter.next(),
             DyldCacheRelocationIteratorVersion::V5(iter) => iter.next(),
+        };
+        if result.is_err() {
+            self.version = DyldCacheRelocationIteratorVersion::None;
         }
-        .transpose()
+        result.transpose()
     }
 }
 
-- 
2.43.0


From 976c55416c4f4cb31fd181909f024af5d6671d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:16 +0000
Subject: [PATCH 48/60] fix: read the names of XCOFF debugger symbols from the
 .debug section

---
 src/read/xcoff/file.rs    |  3 ++-
 src/read/xcoff/section.rs | 14 +++++++++++++-
 src/read/xcoff/symbol.rs  | 13 +++++++++++++
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/read/xcoff/file.rs b/src/read/xcoff/file.rs
index d1cca5c..577d19d 100644
--- a/src/read/xcoff/file.rs
+++ b/src/read/xcoff/file.rs
@@ -63,7 +63,8 @@ where
         let header = Xcoff::parse(data, &mut offset)?;
         let aux_header = header.aux_header(data, &mut offset)?;
         let sections = header.sections(data, &mut offset)?;
-        let symbols = header.symbols(data)?;
+        let mut symbols = header.symbols(data)?;
+        symbols.debug_strings = sections.debug_strings(data);
 
         Ok(XcoffFile {
             data: SkipDebugList(data),
diff --git a/src/read/xcoff/section.rs b/src/read/xcoff/section.rs
index 3754a51..d398c4e 100644
--- a/src/read/xcoff/section.rs
+++ b/src/read/xcoff/section.rs
@@ -5,7 +5,7 @@ use crate::endian::BigEndian as BE;
 use crate::pod::Pod;
 use crate::read::{
     self, CompressedData, CompressedFileRange, Error, ObjectSection, ReadError, ReadRef,
-    RelocationMap, Result, SectionFlags, SectionIndex, SectionKind,
+    RelocationMap, Result, SectionFlags, SectionIndex, SectionKind, StringTable,
 };
 use crate::xcoff;
 
@@ -282,6 +282,18 @@ where
             .get(index.0.wrapping_sub(1))
             .read_error("Invalid XCOFF section index")
     }
+
+    /// Return the contents of the `.debug` section as a string table.
+    pub(super) fn debug_strings<R: ReadRef<'data>>(&self, data: R) -> StringTable<'data, R> {
+        self.iter()
+            .find(|section| section.s_flags().typ() == xcoff::STYP_DEBUG)
+            .and_then(|section| {
+                let start = section.s_scnptr().into();
+                let end = start.checked_add(section.s_size().into())?;
+                Some(StringTable::new(data, start, end))
+            })
+            .unwrap_or_default()
+    }
 }
 
 /// A trait for generic access to [`xcoff::SectionHeader32`] and [`xcoff::SectionHeader64`].
diff --git a/src/read/xcoff/symbol.rs b/src/read/xcoff/symbol.rs
index 297dd7e..664dc3b 100644
--- a/src/read/xcoff/symbol.rs
+++ b/src/read/xcoff/symbol.rs
@@ -27,6 +27,8 @@ where
 {
     symbols: &'data [xcoff::SymbolBytes],
     strings: StringTable<'data, R>,
+    /// The contents of the `.debug` section.
+    pub(super) debug_strings: StringTable<'data, R>,
     header: PhantomData<Xcoff>,
 }
 
@@ -39,6 +41,7 @@ where
         Self {
             symbols: &[],
             strings: StringTable::default(),
+            debug_strings: StringTable::default(),
             header: PhantomData,
         }
     }
@@ -76,6 +79,7 @@ where
         Ok(SymbolTable {
             symbols,
             strings,
+            debug_strings: StringTable::default(),
             header: PhantomData,
         })
     }
@@ -350,6 +354,8 @@ impl<'data, 'file, Xcoff: FileHeader, R: ReadRef<'data>> ObjectSymbol<'data>
             self.symbols
                 .aux_file(self.index, 1)?
                 .fname(self.symbols.strings)
+        } else if self.symbol.has_debug_name() {
+            self.symbol.name(self.symbols.debug_strings)
         } else {
             self.symbol.name(self.symbols.strings)
         }
@@ -578,6 +584,13 @@ pub trait Symbol: Debug + Pod + read::private::Sealed {
             && self.n_scnum() == xcoff::N_UNDEF
     }
 
+    /// Return true if the name offset is in the `.debug` section instead of the string table.
+    ///
+    /// This is the case for the storage classes of symbolic debugger symbols.
+    fn has_debug_name(&self) -> bool {
+        self.n_sclass().0 & 0x80 != 0
+    }
+
     /// Return true if the symbol has file auxiliary entry.
     fn has_aux_file(&self) -> bool {
         self.n_numaux() > 0 && self.n_sclass() == xcoff::C_FILE
-- 
2.43.0


From 03c750c6a31f49fede902bbfc728552544e60b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:15 +0000
Subject: [PATCH 49/60] fix: XCOFF relocation entries hold addresses, not
 section offsets

---
 src/read/xcoff/relocation.rs | 8 +++++++-
 src/read/xcoff/section.rs    | 1 +
 src/write/xcoff.rs           | 6 ++++--
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/read/xcoff/relocation.rs b/src/read/xcoff/relocation.rs
index 6ce3879..2f2eb23 100644
--- a/src/read/xcoff/relocation.rs
+++ b/src/read/xcoff/relocation.rs
@@ -27,6 +27,8 @@ where
 {
     #[allow(unused)]
     pub(super) file: &'file XcoffFile<'data, Xcoff, R>,
+    /// The address of the section, for converting relocation addresses to offsets.
+    pub(super) section_address: u64,
     pub(super) relocations:
         slice::Iter<'data, <<Xcoff as FileHeader>::SectionHeader as SectionHeader>::Rel>,
 }
@@ -57,8 +59,12 @@ where
             };
             let size = (r_rsize & 0x3F) + 1;
             let target = RelocationTarget::Symbol(relocation.symbol());
+            let offset = relocation
+                .r_vaddr()
+                .into()
+                .wrapping_sub(self.section_address);
             (
-                relocation.r_vaddr().into(),
+                offset,
                 Relocation {
                     kind,
                     encoding,
diff --git a/src/read/xcoff/section.rs b/src/read/xcoff/section.rs
index d398c4e..9cffb3d 100644
--- a/src/read/xcoff/section.rs
+++ b/src/read/xcoff/section.rs
@@ -201,6 +201,7 @@ where
         let rel = self.xcoff_relocations().unwrap_or(&[]);
         XcoffRelocationIterator {
             file: self.file,
+            section_address: self.section.s_vaddr().into(),
             relocations: rel.iter(),
         }
     }
diff --git a/src/write/xcoff.rs b/src/write/xcoff.rs
index f078a42..02cbb0b 100644
--- a/src/write/xcoff.rs
+++ b/src/write/xcoff.rs
@@ -492,9 +492,11 @@ impl<'a> Object<'a> {
                         } else {
                             return Err(Error("invalid relocation flags".into()));
                         };
+                    // The relocation address is a virtual address.
+                    let r_vaddr = section_offsets[index].address.wrapping_add(reloc.offset);
                     if is_64 {
                         let xcoff_rel = xcoff::Rel64 {
-                            r_vaddr: reloc.offset.into(),
+                            r_vaddr: r_vaddr.into(),
                             r_symndx: (symbol_offsets[reloc.symbol.0].index as u32).into(),
                             r_rsize,
                             r_rtype,
@@ -502,7 +504,7 @@ impl<'a> Object<'a> {
                         buffer.write_pod(&xcoff_rel);
                     } else {
                         let xcoff_rel = xcoff::Rel32 {
-                            r_vaddr: (reloc.offset as u32).into(),
+                            r_vaddr: (r_vaddr as u32).into(),
                             r_symndx: (symbol_offsets[reloc.symbol.0].index as u32).into(),
                             r_rsize,
                             r_rtype,
-- 
2.43.0


From 377d3cfdcf7f457f847d2acbdbbbb8980fd449a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:59 +0000
Subject: [PATCH 50/60] fix: do not trust the count of an ELF CREL section as a
 size hint

---
 src/read/elf/relocation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/read/elf/relocation.rs b/src/read/elf/relocation.rs
index 2b2600c..4b789da 100644
--- a/src/read/elf/relocation.rs
+++ b/src/read/elf/relocation.rs
@@ -1020,7 +1020,8 @@ impl<'data> Iterator for CrelIterator<'data> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.len(), Some(self.len()))
+        // The count is not trusted: there may be fewer relocations than it says.
+        (self.len().min(1), Some(self.len()))
     }
 }
 
-- 
2.43.0


From b7740cb43c1dc2f3ca90eb22ba94bf87f3254438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:22 +0000
Subject: [PATCH 51/60] fix: keep the size and type of SHARC type B relative
 relocations

---
 src/read/elf/relocation.rs | 2 +-
 src/write/elf/object.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/read/elf/relocation.rs b/src/read/elf/relocation.rs
index 4b789da..197aefc 100644
--- a/src/read/elf/relocation.rs
+++ b/src/read/elf/relocation.rs
@@ -515,7 +515,7 @@ fn parse_relocation<Elf: FileHeader>(
             elf::R_SHARC_DATA6_VISA_V3 => (K::Absolute, E::SharcTypeB, 6),
             elf::R_SHARC_DATA7_VISA_V3 => (K::Absolute, E::SharcTypeB, 7),
             elf::R_SHARC_DATA16_VISA_V3 => (K::Absolute, E::SharcTypeB, 16),
-            elf::R_SHARC_PCR6_VISA_V3 => (K::Relative, E::SharcTypeB, 16),
+            elf::R_SHARC_PCR6_VISA_V3 => (K::Relative, E::SharcTypeB, 6),
             elf::R_SHARC_ADDR_VAR16_V3 => (K::Absolute, E::Generic, 16),
             _ => unknown,
         },
diff --git a/src/write/elf/object.rs b/src/write/elf/object.rs
index 0383bdf..0cf9dd4 100644
--- a/src/write/elf/object.rs
+++ b/src/write/elf/object.rs
@@ -496,7 +496,7 @@ impl<'a> Object<'a> {
                 (K::Absolute, E::Generic, 32) => elf::R_SHARC_ADDR_VAR_V3,
                 (K::Relative, E::SharcTypeA, 24) => elf::R_SHARC_PCRLONG_V3,
                 (K::Relative, E::SharcTypeA, 6) => elf::R_SHARC_PCRSHORT_V3,
-                (K::Relative, E::SharcTypeB, 6) => elf::R_SHARC_PCRSHORT_V3,
+                (K::Relative, E::SharcTypeB, 6) => elf::R_SHARC_PCR6_VISA_V3,
                 (K::Absolute, E::Generic, 16) => elf::R_SHARC_ADDR_VAR16_V3,
                 (K::Absolute, E::SharcTypeA, 16) => elf::R_SHARC_DATA16_V3,
                 (K::Absolute, E::SharcTypeB, 16) => elf::R_SHARC_DATA16_VISA_V3,
-- 
2.43.0


From e3ba174f5f6de1b6a939e16f17fd0cac752551a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:22 +0000
Subject: [PATCH 52/60] fix: use the MIPS64 little endian layout for ELF
 SHT_REL relocations

---
 src/read/elf/relocation.rs | 20 ++++++++++++++------
 src/write/elf/encoder.rs   |  2 +-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/read/elf/relocation.rs b/src/read/elf/relocation.rs
index 197aefc..adc4013 100644
--- a/src/read/elf/relocation.rs
+++ b/src/read/elf/relocation.rs
@@ -81,7 +81,7 @@ impl RelocationSections {
 }
 
 pub(super) enum ElfRelocationIterator<'data, Elf: FileHeader> {
-    Rel(slice::Iter<'data, Elf::Rel>, Elf::Endian),
+    Rel(slice::Iter<'data, Elf::Rel>, Elf::Endian, bool),
     Rela(slice::Iter<'data, Elf::Rela>, Elf::Endian, bool),
     Crel(CrelIterator<'data>),
 }
@@ -101,7 +101,9 @@ impl<'data, Elf: FileHeader> Iterator for ElfRelocationIterator<'data, Elf> {
 
     fn next(&mut self) -> Option<Self::Item> {
         match self {
-            ElfRelocationIterator::Rel(i, endian) => i.next().map(|r| Crel::from_rel(r, *endian)),
+            ElfRelocationIterator::Rel(i, endian, is_mips64el) => i
+                .next()
+                .map(|r| Crel::from_rela(&Elf::Rela::from(*r), *endian, *is_mips64el)),
             ElfRelocationIterator::Rela(i, endian, is_mips64el) => {
                 i.next().map(|r| Crel::from_rela(r, *endian, *is_mips64el))
             }
@@ -158,8 +160,11 @@ where
             match section.sh_type(endian) {
                 elf::SHT_REL => {
                     if let Ok(relocations) = section.data_as_array(endian, self.file.data.0) {
-                        self.relocations =
-                            Some(ElfRelocationIterator::Rel(relocations.iter(), endian));
+                        self.relocations = Some(ElfRelocationIterator::Rel(
+                            relocations.iter(),
+                            endian,
+                            self.file.header.is_mips64el(endian),
+                        ));
                     }
                 }
                 elf::SHT_RELA => {
@@ -237,8 +242,11 @@ where
             match section.sh_type(endian) {
                 elf::SHT_REL => {
                     if let Ok(relocations) = section.data_as_array(endian, self.file.data.0) {
-                        self.relocations =
-                            Some(ElfRelocationIterator::Rel(relocations.iter(), endian));
+                        self.relocations = Some(ElfRelocationIterator::Rel(
+                            relocations.iter(),
+                            endian,
+                            self.file.header.is_mips64el(endian),
+                        ));
                     }
                 }
                 elf::SHT_RELA => {
diff --git a/src/write/elf/encoder.rs b/src/write/elf/encoder.rs
index 656e0c7..341456d 100644
--- a/src/write/elf/encoder.rs
+++ b/src/write/elf/encoder.rs
@@ -1019,7 +1019,7 @@ impl<E: Endian> Encoder<E> {
             } else {
                 let data = &elf::Rel64 {
                     r_offset: U64::new(endian, rel.r_offset),
-                    r_info: elf::Rel64::r_info(endian, rel.r_sym, rel.r_type),
+                    r_info: elf::Rela64::r_info(endian, self.is_mips64el, rel.r_sym, rel.r_type),
                 };
                 buffer.write_pod(data);
             }
-- 
2.43.0


From 1d87868870f65c1c245d8f42b6d5a4943fad5df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:22 +0000
Subject: [PATCH 53/60] fix: refuse COFF objects with too many sections for
 symbols

---
 src/write/coff/object.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/write/coff/object.rs b/src/write/coff/object.rs
index ef56d43..bd64b4a 100644
--- a/src/write/coff/object.rs
+++ b/src/write/coff/object.rs
@@ -474,6 +474,13 @@ impl<'a> Object<'a> {
     }
 
     pub(crate) fn coff_write(&self, buffer: &mut dyn WritableBuffer) -> Result<()> {
+        if self.sections.len() > usize::from(coff::IMAGE_SYM_SECTION_MAX) {
+            return Err(Error(format!(
+                "Too many sections: {:#x}",
+                self.sections.len()
+            )));
+        }
+
         let mut writer = writer::Writer::new(buffer);
 
         // Add section strings to strtab.
-- 
2.43.0


From b203dc709e81596b5ca1c7c90f3e298778e1a8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:22 +0000
Subject: [PATCH 54/60] fix: refuse relocations against symbols that are not
 written to Mach-O

---
 src/write/macho/object.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/write/macho/object.rs b/src/write/macho/object.rs
index 7c516ee..ab613d0 100644
--- a/src/write/macho/object.rs
+++ b/src/write/macho/object.rs
@@ -14,6 +14,7 @@ struct SectionOffsets {
 
 #[derive(Default, Clone, Copy)]
 struct SymbolOffsets {
+    emitted: bool,
     index: u32,
     str_id: Option<StringId>,
 }
@@ -583,6 +584,7 @@ impl<'a> Object<'a> {
             .chain(external_symbols.iter().copied())
             .chain(undefined_symbols.iter().copied())
         {
+            symbol_offsets[index].emitted = true;
             symbol_offsets[index].index = nsyms;
             nsyms += 1;
         }
@@ -590,6 +592,18 @@ impl<'a> Object<'a> {
             return Err(Error(format!("Too many symbols: {nsyms:#x}")));
         }
 
+        // Check that the symbols used by relocations are emitted.
+        for reloc in self.sections.iter().flat_map(|s| &s.relocations) {
+            // Section symbols don't need to be emitted for use as the target.
+            let target =
+                (self.symbols[reloc.symbol.0].kind != SymbolKind::Section).then_some(reloc.symbol);
+            for symbol in target.into_iter().chain(reloc.subtractor) {
+                if !symbol_offsets[symbol.0].emitted {
+                    return Err(Error(format!("unsupported symbol for {:?}", reloc)));
+                }
+            }
+        }
+
         // Calculate size of relocations.
         for (index, section) in self.sections.iter().enumerate() {
             let count: u32 = section
-- 
2.43.0


From 654ca8bd40e4228e292b820ffec504e0be9ea7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:22 +0000
Subject: [PATCH 55/60] fix: refuse a relocation subtractor when one is implied

---
 src/write/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/write/mod.rs b/src/write/mod.rs
index 557d0ec..0e80afc 100644
--- a/src/write/mod.rs
+++ b/src/write/mod.rs
@@ -720,6 +720,7 @@ impl<'a> Object<'a> {
         section: SectionId,
         mut relocation: RelocationInternal,
     ) -> Result<()> {
+        let has_subtractor = relocation.subtractor.is_some();
         let need_implied_symbol = match self.format {
             #[cfg(feature = "coff")]
             BinaryFormat::Coff => self.coff_translate_relocation(&mut relocation)?,
@@ -737,6 +738,12 @@ impl<'a> Object<'a> {
             }
             _ => unimplemented!(),
         };
+        if need_implied_symbol && has_subtractor {
+            return Err(Error(format!(
+                "unsupported relocation subtractor for {:?}",
+                relocation
+            )));
+        }
         let implicit = match self.format {
             #[cfg(feature = "coff")]
             BinaryFormat::Coff => self.coff_adjust_addend(&mut relocation)?,
-- 
2.43.0


From 3288690a68bdd5bbda8357d62f35ace728e87916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:22 +0000
Subject: [PATCH 56/60] fix: refuse section sizes and symbol values that
 overflow 32-bit fields

---
 src/write/mod.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/write/mod.rs b/src/write/mod.rs
index 0e80afc..c8edaa6 100644
--- a/src/write/mod.rs
+++ b/src/write/mod.rs
@@ -845,6 +845,7 @@ impl<'a> Object<'a> {
     /// The buffer will receive a single [`WritableBuffer::reserve`] call with the exact
     /// output size before any bytes are written.
     pub fn emit(&self, buffer: &mut dyn WritableBuffer) -> Result<()> {
+        self.check_field_sizes()?;
         match self.format {
             #[cfg(feature = "coff")]
             BinaryFormat::Coff => self.coff_write(buffer),
@@ -857,6 +858,45 @@ impl<'a> Object<'a> {
             _ => unimplemented!(),
         }
     }
+
+    /// Check that section sizes and symbol values can be stored by 32-bit formats.
+    fn check_field_sizes(&self) -> Result<()> {
+        if self.format != BinaryFormat::Coff
+            && self.architecture.address_size() == Some(AddressSize::U64)
+        {
+            return Ok(());
+        }
+        for section in &self.sections {
+            if section.size > u64::from(u32::MAX) {
+                return Err(Error(format!(
+                    "section `{}` size overflow: {:#x}",
+                    section.name().unwrap_or(""),
+                    section.size
+                )));
+            }
+        }
+        let has_symbol_size = matches!(self.format, BinaryFormat::Elf | BinaryFormat::Xcoff);
+        for symbol in &self.symbols {
+            // Allow negative values.
+            if symbol.value > u64::from(u32::MAX) && i32::try_from(symbol.value as i64).is_err() {
+                return Err(Error(format!(
+                    "symbol `{}` value overflow: {:#x}",
+                    symbol.name().unwrap_or(""),
+                    symbol.value
+                )));
+            }
+            if symbol.size > u64::from(u32::MAX)
+                && (has_symbol_size || symbol.section == SymbolSection::Common)
+            {
+                return Err(Error(format!(
+                    "symbol `{}` size overflow: {:#x}",
+                    symbol.name().unwrap_or(""),
+                    symbol.size
+                )));
+            }
+        }
+        Ok(())
+    }
 }
 
 /// A standard segment kind.
-- 
2.43.0


From c2703acb8aaa431066800ee79fb5e64753d60e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:22 +0000
Subject: [PATCH 57/60] fix: require .dynsym when there are ELF hash or version
 tables

---
 src/build/elf.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index a4da605..0b73479 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -901,7 +901,12 @@ impl<'data> Builder<'data> {
         }
 
         // Assign dynamic symbol indices and add symbol names to string table.
-        let dynsym_num = if dynsym_index == 0 && self.dynamic_symbols.is_empty() {
+        // The hash and version tables have an entry for the null symbol.
+        let need_dynsym = !self.dynamic_symbols.is_empty()
+            || hash_index != 0
+            || gnu_hash_index != 0
+            || gnu_versym_index != 0;
+        let dynsym_num = if dynsym_index == 0 && !need_dynsym {
             0
         } else {
             // Code below depends on this check, even if dynsym_index == 0.
-- 
2.43.0


From cba807874cc484bfceeffb58822242a86bc63cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:22 +0000
Subject: [PATCH 58/60] fix: do not move sections of ELF files without segments
 in rewriter

---
 crates/rewrite/src/elf.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/rewrite/src/elf.rs b/crates/rewrite/src/elf.rs
index 40f91bf..0fb4990 100644
--- a/crates/rewrite/src/elf.rs
+++ b/crates/rewrite/src/elf.rs
@@ -650,6 +650,10 @@ fn move_sections(builder: &mut build::elf::Builder) -> Result<()> {
     builder.delete_orphans();
     builder.delete_unused_versions();
     builder.set_section_sizes();
+    if builder.segments.is_empty() {
+        // Nothing is loaded, so sections don't have meaningful addresses.
+        return Ok(());
+    }
 
     let mut added_p_flags = Vec::new();
     let mut added_segments = 0;
-- 
2.43.0


From eacad64379e201d4497d853099d4753d5bf930d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:03 +0000
Subject: [PATCH 59/60] fix: refuse to make a GNU hash Bloom filter with
 invalid parameters

---
 src/build/elf.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/build/elf.rs b/src/build/elf.rs
index 0b73479..0a83a99 100644
--- a/src/build/elf.rs
+++ b/src/build/elf.rs
@@ -967,6 +967,17 @@ impl<'data> Builder<'data> {
                 .skip_while(|sym| sym.gnu_hash.is_none())
                 .count() as u32
         };
+        if gnu_hash_symbol_count != 0 {
+            if self.gnu_hash_bloom_count == 0 {
+                return Err(Error::new(".gnu.hash bloom count is zero"));
+            }
+            if self.gnu_hash_bloom_shift >= u32::BITS {
+                return Err(Error(format!(
+                    "Invalid .gnu.hash bloom shift {}",
+                    self.gnu_hash_bloom_shift
+                )));
+            }
+        }
         let num_local_dynamic = num_local_dynamic as u32;
         let mut out_dynsyms_index = vec![0; self.dynamic_symbols.len()];
         for (out_dynsym, index) in out_dynsyms.iter().zip(1..) {
-- 
2.43.0


From 6ec010f867df0acdbff7930ca45798cd065f73f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:04 +0000
Subject: [PATCH 60/60] fix: refuse Mach-O section alignments that overflow in
 builder

---
 src/build/macho.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/build/macho.rs b/src/build/macho.rs
index ed62242..500442b 100644
--- a/src/build/macho.rs
+++ b/src/build/macho.rs
@@ -723,6 +723,14 @@ impl<'data> Builder<'data> {
             if segment.segname != [0; 16] || segment.vmaddr != 0 {
                 return Err(Error::new("Mach-O object must have single unnamed segment"));
             }
+            for section in &self.sections {
+                if section.align >= u64::BITS {
+                    return Err(Error(format!(
+                        "Invalid alignment {} for section at index {}",
+                        section.align, section.id.0
+                    )));
+                }
+            }
 
             // Section data can immediately follow the load commands without any alignment padding.
             let segment_file_offset = offset.0;
-- 
2.43.0

