//! Formatting flags: width `w` and precision `p` are given at run time.

use crate::data::Both;
use std::fmt::Write;

pub type Spec = (&'static str, fn(&dyn Both, usize, usize) -> Result<String, String>);

macro_rules! specs {
    ($v:ident $w:ident $p:ident; $($lit:literal,)*) => {
        pub static SPECS: &[Spec] = &[
            $(($lit, |$v: &dyn Both, $w: usize, $p: usize| {
                let _ = ($w, $p);
                let mut s = String::new();
                match write!(s, $lit) {
                    Ok(()) => Ok(s),
                    Err(_) => Err(s),
                }
            }),)*
        ];
    };
}

specs! { v w p;
    "{v}",
    "{v:?}",
    "{v:x?}",
    "{v:X?}",
    "{v:.p$}",
    "{v:.p$?}",
    "{v:.p$x?}",
    "{v:.p$X?}",
    "{v:w$}",
    "{v:w$?}",
    "{v:w$x?}",
    "{v:w$X?}",
    "{v:w$.p$}",
    "{v:w$.p$?}",
    "{v:w$.p$x?}",
    "{v:w$.p$X?}",
    "{v:0}",
    "{v:0?}",
    "{v:0x?}",
    "{v:0X?}",
    "{v:0.p$}",
    "{v:0.p$?}",
    "{v:0.p$x?}",
    "{v:0.p$X?}",
    "{v:0w$}",
    "{v:0w$?}",
    "{v:0w$x?}",
    "{v:0w$X?}",
    "{v:0w$.p$}",
    "{v:0w$.p$?}",
    "{v:0w$.p$x?}",
    "{v:0w$.p$X?}",
    "{v:#}",
    "{v:#?}",
    "{v:#x?}",
    "{v:#X?}",
    "{v:#.p$}",
    "{v:#.p$?}",
    "{v:#.p$x?}",
    "{v:#.p$X?}",
    "{v:#w$}",
    "{v:#w$?}",
    "{v:#w$x?}",
    "{v:#w$X?}",
    "{v:#w$.p$}",
    "{v:#w$.p$?}",
    "{v:#w$.p$x?}",
    "{v:#w$.p$X?}",
    "{v:#0}",
    "{v:#0?}",
    "{v:#0x?}",
    "{v:#0X?}",
    "{v:#0.p$}",
    "{v:#0.p$?}",
    "{v:#0.p$x?}",
    "{v:#0.p$X?}",
    "{v:#0w$}",
    "{v:#0w$?}",
    "{v:#0w$x?}",
    "{v:#0w$X?}",
    "{v:#0w$.p$}",
    "{v:#0w$.p$?}",
    "{v:#0w$.p$x?}",
    "{v:#0w$.p$X?}",
    "{v:+}",
    "{v:+?}",
    "{v:+x?}",
    "{v:+X?}",
    "{v:+.p$}",
    "{v:+.p$?}",
    "{v:+.p$x?}",
    "{v:+.p$X?}",
    "{v:+w$}",
    "{v:+w$?}",
    "{v:+w$x?}",
    "{v:+w$X?}",
    "{v:+w$.p$}",
    "{v:+w$.p$?}",
    "{v:+w$.p$x?}",
    "{v:+w$.p$X?}",
    "{v:+0}",
    "{v:+0?}",
    "{v:+0x?}",
    "{v:+0X?}",
    "{v:+0.p$}",
    "{v:+0.p$?}",
    "{v:+0.p$x?}",
    "{v:+0.p$X?}",
    "{v:+0w$}",
    "{v:+0w$?}",
    "{v:+0w$x?}",
    "{v:+0w$X?}",
    "{v:+0w$.p$}",
    "{v:+0w$.p$?}",
    "{v:+0w$.p$x?}",
    "{v:+0w$.p$X?}",
    "{v:+#}",
    "{v:+#?}",
    "{v:+#x?}",
    "{v:+#X?}",
    "{v:+#.p$}",
    "{v:+#.p$?}",
    "{v:+#.p$x?}",
    "{v:+#.p$X?}",
    "{v:+#w$}",
    "{v:+#w$?}",
    "{v:+#w$x?}",
    "{v:+#w$X?}",
    "{v:+#w$.p$}",
    "{v:+#w$.p$?}",
    "{v:+#w$.p$x?}",
    "{v:+#w$.p$X?}",
    "{v:+#0}",
    "{v:+#0?}",
    "{v:+#0x?}",
    "{v:+#0X?}",
    "{v:+#0.p$}",
    "{v:+#0.p$?}",
    "{v:+#0.p$x?}",
    "{v:+#0.p$X?}",
    "{v:+#0w$}",
    "{v:+#0w$?}",
    "{v:+#0w$x?}",
    "{v:+#0w$X?}",
    "{v:+#0w$.p$}",
    "{v:+#0w$.p$?}",
    "{v:+#0w$.p$x?}",
    "{v:+#0w$.p$X?}",
    "{v:<w$}",
    "{v:<w$X?}",
    "{v:<0w$}",
    "{v:<0w$X?}",
    "{v:<#w$}",
    "{v:<#w$.p$?}",
    "{v:<#0w$}",
    "{v:<#0w$.p$?}",
    "{v:<+w$x?}",
    "{v:<+w$.p$?}",
    "{v:<+0w$x?}",
    "{v:<+0w$.p$?}",
    "{v:<+#w$x?}",
    "{v:<+#w$.p$X?}",
    "{v:<+#0w$x?}",
    "{v:<+#0w$.p$X?}",
    "{v:>w$.p$}",
    "{v:>w$.p$X?}",
    "{v:>0w$.p$}",
    "{v:>0w$.p$X?}",
    "{v:>#w$?}",
    "{v:>#w$.p$}",
    "{v:>#0w$?}",
    "{v:>#0w$.p$}",
    "{v:>+w$?}",
    "{v:>+w$.p$x?}",
    "{v:>+0w$?}",
    "{v:>+0w$.p$x?}",
    "{v:>+#w$X?}",
    "{v:>+#w$.p$x?}",
    "{v:>+#0w$X?}",
    "{v:>+#0w$.p$x?}",
    "{v:^w$}",
    "{v:^w$X?}",
    "{v:^0w$}",
    "{v:^0w$X?}",
    "{v:^#w$}",
    "{v:^#w$.p$?}",
    "{v:^#0w$}",
    "{v:^#0w$.p$?}",
    "{v:^+w$x?}",
    "{v:^+w$.p$?}",
    "{v:^+0w$x?}",
    "{v:^+0w$.p$?}",
    "{v:^+#w$x?}",
    "{v:^+#w$.p$X?}",
    "{v:^+#0w$x?}",
    "{v:^+#0w$.p$X?}",
    "{v:*<w$.p$}",
    "{v:*<w$.p$X?}",
    "{v:*<0w$.p$}",
    "{v:*<0w$.p$X?}",
    "{v:*<#w$?}",
    "{v:*<#w$.p$}",
    "{v:*<#0w$?}",
    "{v:*<#0w$.p$}",
    "{v:*<+w$?}",
    "{v:*<+w$.p$x?}",
    "{v:*<+0w$?}",
    "{v:*<+0w$.p$x?}",
    "{v:*<+#w$X?}",
    "{v:*<+#w$.p$x?}",
    "{v:*<+#0w$X?}",
    "{v:*<+#0w$.p$x?}",
    "{v:é^w$}",
    "{v:é^w$X?}",
    "{v:é^0w$}",
    "{v:é^0w$X?}",
    "{v:é^#w$}",
    "{v:é^#w$.p$?}",
    "{v:é^#0w$}",
    "{v:é^#0w$.p$?}",
    "{v:é^+w$x?}",
    "{v:é^+w$.p$?}",
    "{v:é^+0w$x?}",
    "{v:é^+0w$.p$?}",
    "{v:é^+#w$x?}",
    "{v:é^+#w$.p$X?}",
    "{v:é^+#0w$x?}",
    "{v:é^+#0w$.p$X?}",
    "{v:0>w$.p$}",
    "{v:0>w$.p$X?}",
    "{v:0>0w$.p$}",
    "{v:0>0w$.p$X?}",
    "{v:0>#w$?}",
    "{v:0>#w$.p$}",
    "{v:0>#0w$?}",
    "{v:0>#0w$.p$}",
    "{v:0>+w$?}",
    "{v:0>+w$.p$x?}",
    "{v:0>+0w$?}",
    "{v:0>+0w$.p$x?}",
    "{v:0>+#w$X?}",
    "{v:0>+#w$.p$x?}",
    "{v:0>+#0w$X?}",
    "{v:0>+#0w$.p$x?}",
    "{v:-^w$}",
    "{v:-^w$X?}",
    "{v:-^0w$}",
    "{v:-^0w$X?}",
    "{v:-^#w$}",
    "{v:-^#w$.p$?}",
    "{v:-^#0w$}",
    "{v:-^#0w$.p$?}",
    "{v:-^+w$x?}",
    "{v:-^+w$.p$?}",
    "{v:-^+0w$x?}",
    "{v:-^+0w$.p$?}",
    "{v:-^+#w$x?}",
    "{v:-^+#w$.p$X?}",
    "{v:-^+#0w$x?}",
    "{v:-^+#0w$.p$X?}",
}
