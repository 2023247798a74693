macro_rules! f { ($($n:ident $t:ty: $m:ident)*) => { $(pub fn $n(x: $t) -> $t { x.$m() })* } }
f! { fabsf f32: abs ceilf f32: ceil floorf f32: floor truncf f32: trunc roundf f32: round sqrtf f32: sqrt fabs f64: abs ceil f64: ceil floor f64: floor trunc f64: trunc round f64: round sqrt f64: sqrt rintf f32: round rint f64: round }
macro_rules! g { ($($n:ident $t:ty: $m:ident)*) => { $(pub fn $n(x: $t, y: $t) -> $t { x.$m(y) })* } }
g! { fmaxf f32: max fminf f32: min fmax f64: max fmin f64: min copysignf f32: copysign copysign f64: copysign }
