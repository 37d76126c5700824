//! Format-specific observations of XCOFF files.
use crate::observe::*;
use object::read::ReadRef;
use object::read::xcoff::*;

pub const PARTS: usize = 2;

pub fn special<'d, X: FileHeader, R: ReadRef<'d>>(file: &XcoffFile<'d, X, R>, data: R, k: usize, obs: &mut Obs) {
    let h = file.xcoff_header();
    match k {
        0 => {
            obs.put("xh", format!(
                "{:#x} n {} t {} sym {:#x}/{} opt {} flags {:#x}", h.f_magic(), h.f_nscns(), h.f_timdat(), h.f_symptr().into(), h.f_nsyms(), h.f_opthdr(), h.f_flags().0
            ));
            match file.xcoff_aux_header() {
                Some(a) => obs.put("xaux", format!(
                    "{:#x} {} {:#x} {:#x} {:#x} {:#x} {:#x} {:#x} {:#x} | {} {} {} {} {} | {} {} {:?} {} {} {:#x} {:#x} {} {} {} {} {} {:?}",
                    a.o_mflag(), a.o_vstamp(), a.o_tsize().into(), a.o_dsize().into(), a.o_bsize().into(), a.o_entry().into(), a.o_text_start().into(), a.o_data_start().into(), a.o_toc().into(),
                    a.o_snentry(), a.o_sntext(), a.o_sndata(), a.o_sntoc(), a.o_snloader(), a.o_algntext(), a.o_algndata(), a.o_modtype(), a.o_cpuflag(), a.o_cputype(),
                    a.o_maxstack().into(), a.o_maxdata().into(), a.o_debugger(), a.o_textpsize(), a.o_flags(), a.o_sntdata(), a.o_snbss(), a.o_x64flags()
                )),
                None => obs.put("xaux", NONE),
            }
            if let Some(a) = file.xcoff_aux_header() {
                obs.put("xaux2", format!("{} {} {}", a.o_datapsize(), a.o_stackpsize(), a.o_sntbss()));
            }
            for (i, s) in file.xcoff_section_table().iter().enumerate() {
                obs.put(format!("xs[{i}]"), format!(
                    "{} pa {:#x} va {:#x} sz {:#x} ptr {:#x} rel {:#x}/{} ln {:#x}/{} flags {:#x}", txt(s.name()), s.s_paddr().into(), s.s_vaddr().into(), s.s_size().into(), s.s_scnptr().into(),
                    s.s_relptr().into(), s.s_nreloc().into(), s.s_lnnoptr().into(), s.s_nlnno().into(), s.s_flags().0
                ));
                match s.relocations(data) {
                    Ok(rs) => {
                        for (j, r) in rs.iter().enumerate() {
                            obs.put(format!("xs[{i}].rel[{j}]"), format!("{:#x} {} {:#x} {}", r.r_vaddr().into(), r.symbol().0, r.r_rsize(), r.r_rtype().0));
                        }
                    }
                    Err(_) => obs.put(format!("xs[{i}].rel"), ERR),
                }
            }
        }
        1 => {
            let t = file.xcoff_symbol_table();
            for (n, (i, s)) in t.iter().enumerate() {
                let k = format!("xsym[{}]", i.0);
                obs.put(&k, format!(
                    "{:#x} sec {} {:?} type {:#x} class {} aux {} off {:?}", s.n_value().into(), s.n_scnum().0, s.section().map(|s| s.0), s.n_type().0, s.n_sclass().0, s.n_numaux(), s.name_offset()
                ));
                // (the names of symbolic debugger symbols are not in the string table)
                if s.n_sclass().0 & 0x80 == 0 {
                    obs.put(format!("{k}.name"), rb(s.name(t.strings())));
                }
                if s.has_aux_file() {
                    for a in 1..=s.n_numaux() as usize {
                        match t.aux_file(i, a) {
                            Ok(x) => {
                                obs.put(format!("{k}.file[{a}]"), format!("{} {:?}", x.x_ftype().0, x.x_auxtype().map(|t| t.0)));
                                obs.put(format!("{k}.file[{a}].name"), rb(x.fname(t.strings())));
                            }
                            Err(_) => obs.put(format!("{k}.file[{a}]"), ERR),
                        }
                    }
                }
                if s.has_aux_csect() {
                    obs.put(format!("{k}.csect"), match t.aux_csect(i, s.n_numaux() as usize) {
                        Ok(x) => format!(
                            "len {} ph {} {} al {} type {} cl {} {:?} {:?} {:?}", x.x_scnlen(), x.x_parmhash(), x.x_snhash(), x.alignment(), x.sym_type().0, x.x_smclas().0, x.x_stab(), x.x_snstab(), x.x_auxtype().map(|t| t.0)
                        ),
                        Err(_) => ERR.into(),
                    });
                }
                if obs.over(n, "xcoff symbols") {
                    return;
                }
            }
        }
        _ => {}
    }
}
