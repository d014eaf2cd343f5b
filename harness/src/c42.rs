//! C42: the display window shows the image it is given, scaled to fit, until it is closed.
//!
//! The real SDL2 (built from the crate's sources) runs on its dummy video driver, whose "screen" is a surface in
//! memory. Because SDL belongs to one thread, every harness thread drives a child process (`vh --window-worker`)
//! with one case per line. In the child the event functions are stand-ins: whenever the library waits for an event,
//! what the windows show is compared with what they should show, and the next event of the case is handed out. The
//! functions that bring a frame to the screen are wrapped to keep a copy of it, so a frame that is drawn but never
//! presented does not count.
use crate::ensure;
use crate::fw::*;
use crate::gen::*;
use image::{imageops, DynamicImage, GrayImage, ImageBuffer, LumaA, RgbImage, Rgba, RgbaImage};
use proptest::prelude::*;
use sdl2::sys;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::io::{BufRead, BufReader, Write};
use std::os::raw::{c_char, c_int, c_void};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ev {
    Resize(u8, u32, u32),
    Q(u8),
    Close(u8),
    OtherKey(u8, u8),
    OtherWindow(u8, u8),
    Mouse(u8),
    Escape(u8),
    Quit,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// 0 gray, 1 gray with alpha, 2 RGB, 3 RGBA
    format: u8,
    single: bool,
    images: Vec<Big>,
    title: String,
    w: u32,
    h: u32,
    script: Vec<Ev>,
}

const MIN: u32 = 150;

struct Win {
    w: u32,
    h: u32,
    hidden: bool,
}
struct Frame {
    w: u32,
    h: u32,
    px: Vec<u32>,
}
struct State {
    active: bool,
    images: Vec<RgbaImage>,
    title: String,
    script: Vec<Ev>,
    pos: usize,
    ids: Vec<u32>,
    wins: Vec<Win>,
    shown: HashMap<u32, Frame>,
    ended: bool,
    overrun: u32,
    fail: Option<String>,
    resizes: u32,
    scaled: bool,
}
thread_local! {
    static ST: RefCell<Option<State>> = RefCell::new(None);
}

extern "C" {
    fn dlsym(handle: *mut c_void, name: *const c_char) -> *mut c_void;
    fn SDL_RenderGetWindow(r: *mut sys::SDL_Renderer) -> *mut sys::SDL_Window;
}
const RTLD_NEXT: *mut c_void = -1isize as *mut c_void;
unsafe fn real(name: &str) -> *mut c_void {
    let p = dlsym(RTLD_NEXT, CString::new(name).unwrap().as_ptr());
    assert!(!p.is_null(), "{name} not found");
    p
}
/// Keeps a copy of what the driver's screen shows for this window.
unsafe fn keep(window: *mut sys::SDL_Window) {
    if window.is_null() {
        return;
    }
    let id = sys::SDL_GetWindowID(window);
    let s = sys::SDL_GetWindowData(window, b"_SDL_DummySurface\0".as_ptr() as *const c_char) as *mut sys::SDL_Surface;
    if s.is_null() {
        return;
    }
    let (w, h, pitch) = ((*s).w as usize, (*s).h as usize, (*s).pitch as usize);
    let mut px = Vec::with_capacity(w * h);
    for y in 0..h {
        let row = ((*s).pixels as *const u8).add(y * pitch) as *const u32;
        for x in 0..w {
            px.push(*row.add(x) & 0xff_ffff);
        }
    }
    ST.with(|st| {
        if let Some(st) = st.borrow_mut().as_mut() {
            st.shown.insert(id, Frame { w: w as u32, h: h as u32, px });
        }
    });
}
#[no_mangle]
unsafe extern "C" fn SDL_RenderPresent(r: *mut sys::SDL_Renderer) {
    let f: unsafe extern "C" fn(*mut sys::SDL_Renderer) = std::mem::transmute(real("SDL_RenderPresent"));
    f(r);
    keep(SDL_RenderGetWindow(r));
}
#[no_mangle]
unsafe extern "C" fn SDL_UpdateWindowSurface(w: *mut sys::SDL_Window) -> c_int {
    let f: unsafe extern "C" fn(*mut sys::SDL_Window) -> c_int = std::mem::transmute(real("SDL_UpdateWindowSurface"));
    let r = f(w);
    keep(w);
    r
}
#[no_mangle]
unsafe extern "C" fn SDL_UpdateWindowSurfaceRects(w: *mut sys::SDL_Window, rs: *const sys::SDL_Rect, n: c_int) -> c_int {
    let f: unsafe extern "C" fn(*mut sys::SDL_Window, *const sys::SDL_Rect, c_int) -> c_int = std::mem::transmute(real("SDL_UpdateWindowSurfaceRects"));
    let r = f(w, rs, n);
    keep(w);
    r
}
#[no_mangle]
unsafe extern "C" fn SDL_WaitEvent(e: *mut sys::SDL_Event) -> c_int {
    next_event(e)
}
#[no_mangle]
unsafe extern "C" fn SDL_WaitEventTimeout(e: *mut sys::SDL_Event, _timeout: c_int) -> c_int {
    next_event(e)
}
/// A program that polls sees an empty queue between any two events.
#[no_mangle]
unsafe extern "C" fn SDL_PollEvent(e: *mut sys::SDL_Event) -> c_int {
    thread_local!(static GAP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
    if GAP.with(|g| g.replace(!g.get())) {
        return 0;
    }
    next_event(e)
}

fn real_event(e: *mut sys::SDL_Event) -> bool {
    unsafe {
        let f: unsafe extern "C" fn(*mut sys::SDL_Event) -> c_int = std::mem::transmute(real("SDL_PollEvent"));
        f(e) == 1
    }
}
fn window(id: u32) -> *mut sys::SDL_Window {
    unsafe { sys::SDL_GetWindowFromID(id) }
}

/// The pictures that a window of this size may show, as (left, top, scaled image).
fn scalings(im: &RgbaImage, w: u32, h: u32) -> Vec<(u32, u32)> {
    let (iw, ih) = im.dimensions();
    if iw < w && ih < h {
        return vec![(iw, ih)];
    }
    let s = (w as f64 / iw as f64).min(h as f64 / ih as f64);
    let c = |d: u32, max: u32| {
        let e = s * d as f64;
        let mut v: Vec<u32> = [e - 1e-3, e + 1e-3].iter().map(|v| (v.max(0.0) as u32).clamp(1, max)).collect();
        v.dedup();
        v
    };
    let mut out = vec![];
    for a in c(iw, w) {
        for b in c(ih, h) {
            out.push((a, b));
        }
    }
    out
}
fn compare(f: &Frame, im: &RgbaImage, w: u32, h: u32) -> Result<(), String> {
    ensure_s(f.w == w && f.h == h, || format!("the frame shown is {}x{}, the window {w}x{h}", f.w, f.h))?;
    let mut first = None;
    for (sw, sh) in scalings(im, w, h) {
        let s = if (sw, sh) == im.dimensions() { im.clone() } else { imageops::resize(im, sw, sh, imageops::FilterType::Triangle) };
        let (l, t) = ((w - sw) / 2, (h - sh) / 2);
        let mut bad = None;
        'scan: for y in 0..h {
            for x in 0..w {
                let g = f.px[(y * w + x) as usize];
                let g = [(g >> 16) as u8, (g >> 8) as u8, g as u8];
                let inside = x >= l && x < l + sw && y >= t && y < t + sh;
                for c in 0..3 {
                    let (want, tol) = if inside {
                        let p = s.get_pixel(x - l, y - t).0;
                        let a = p[3] as f64 / 255.0;
                        (p[c] as f64 * a + 255.0 * (1.0 - a), if p[3] == 255 { 0.0 } else { 2.0 })
                    } else {
                        (255.0, 0.0)
                    };
                    if (g[c] as f64 - want).abs() > tol {
                        bad = Some(format!("pixel ({x},{y}) channel {c} of the {w}x{h} window is {}, want {want:.1} (image {}x{} shown as {sw}x{sh} at ({l},{t}))", g[c], im.width(), im.height()));
                        break 'scan;
                    }
                }
            }
        }
        match bad {
            None => return Ok(()),
            Some(m) => first = first.or(Some(m)),
        }
    }
    Err(first.unwrap())
}
fn ensure_s(c: bool, m: impl FnOnce() -> String) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(m())
    }
}
/// What must be true whenever the library waits for an event.
fn check_state(st: &mut State) -> Result<(), String> {
    let ids: Vec<u32> = (1..40 + st.ids.last().copied().unwrap_or(0)).filter(|i| !window(*i).is_null()).collect();
    if st.ids.is_empty() {
        ensure_s(ids.len() == st.images.len(), || format!("{} windows for {} images", ids.len(), st.images.len()))?;
        st.ids = ids.clone();
    }
    ensure_s(ids == st.ids, || format!("windows {:?} became {ids:?}", st.ids))?;
    for (i, id) in ids.iter().enumerate() {
        let p = window(*id);
        let m = &st.wins[i];
        unsafe {
            let flags = sys::SDL_GetWindowFlags(p);
            let hidden = flags & sys::SDL_WindowFlags::SDL_WINDOW_HIDDEN as u32 != 0;
            ensure_s(hidden == m.hidden, || format!("window {i}: hidden is {hidden}, want {}", m.hidden))?;
            let (mut w, mut h) = (0, 0);
            sys::SDL_GetWindowSize(p, &mut w, &mut h);
            ensure_s((w as u32, h as u32) == (m.w, m.h), || format!("window {i} is {w}x{h}, want {}x{}", m.w, m.h))?;
            let t = CStr::from_ptr(sys::SDL_GetWindowTitle(p)).to_string_lossy().to_string();
            ensure_s(t == st.title, || format!("window {i} has the title {t:?}, want {:?}", st.title))?;
            sys::SDL_GetWindowMinimumSize(p, &mut w, &mut h);
            ensure_s((w as u32, h as u32) == (MIN, MIN), || format!("window {i} can shrink to {w}x{h}"))?;
            let (mut x, mut y) = (0, 0);
            sys::SDL_GetWindowPosition(p, &mut x, &mut y);
            let mut b = sys::SDL_Rect { x: 0, y: 0, w: 0, h: 0 };
            sys::SDL_GetDisplayBounds(0, &mut b);
            if st.pos == 0 {
                ensure_s(x + m.w as i32 <= b.w, || format!("window {i} at x = {x} reaches beyond the screen of width {}", b.w))?;
            }
        }
        if !m.hidden {
            let f = st.shown.get(id).ok_or_else(|| format!("window {i} shows nothing"))?;
            let im = &st.images[i];
            compare(f, im, m.w, m.h).map_err(|e| format!("window {i}: {e}"))?;
            st.scaled |= im.width() > m.w || im.height() > m.h;
        }
    }
    Ok(())
}
fn finish_with(reply: &str) -> ! {
    println!("R:{reply}");
    std::io::stdout().flush().unwrap();
    std::process::exit(0)
}
fn next_event(e: *mut sys::SDL_Event) -> c_int {
    if real_event(e) {
        return 1;
    }
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let st = s.as_mut().expect("an event is waited for outside a case");
        if st.fail.is_none() && !st.ended {
            if let Err(m) = check_state(st) {
                let k = st.pos;
                st.fail = Some(if k == 0 { format!("at first: {m}") } else { format!("after {:?} (event {k}): {m}", st.script[k - 1]) });
            }
        } else if st.ended && st.fail.is_none() {
            st.fail = Some(format!("still waiting after {:?} closed the last window", st.script[st.pos - 1]));
        }
        let ev = if st.fail.is_some() {
            st.overrun += 1;
            if st.overrun > 3 {
                finish_with(&format!("F{}", st.fail.clone().unwrap()));
            }
            Ev::Quit
        } else {
            st.pos += 1;
            st.script[st.pos - 1].clone()
        };
        let n = st.wins.len();
        let id = |i: u8| st.ids.get(i as usize % n.max(1)).copied().unwrap_or(1);
        let key = |e: *mut sys::SDL_Event, w: u32, sym: i32, scan: i32| unsafe {
            (*e).type_ = sys::SDL_EventType::SDL_KEYDOWN as u32;
            (*e).key.windowID = w;
            (*e).key.state = 1;
            (*e).key.keysym.sym = sym;
            (*e).key.keysym.scancode = std::mem::transmute(scan);
        };
        let win = |e: *mut sys::SDL_Event, w: u32, what: u8, a: i32, b: i32| unsafe {
            (*e).type_ = sys::SDL_EventType::SDL_WINDOWEVENT as u32;
            (*e).window.windowID = w;
            (*e).window.event = what;
            (*e).window.data1 = a;
            (*e).window.data2 = b;
        };
        unsafe { std::ptr::write_bytes(e, 0, 1) };
        let mut hide = None;
        match ev {
            Ev::Resize(i, w, h) => {
                let k = i as usize % n;
                let p = window(st.ids[k]);
                unsafe { sys::SDL_SetWindowSize(p, w as c_int, h as c_int) };
                win(e, st.ids[k], sys::SDL_WindowEventID::SDL_WINDOWEVENT_RESIZED as u8, w as i32, h as i32);
                st.wins[k].w = w;
                st.wins[k].h = h;
                st.resizes += 1;
            }
            Ev::Q(i) => {
                key(e, id(i), 'q' as i32, 20);
                hide = Some(i);
            }
            Ev::Close(i) => {
                win(e, id(i), sys::SDL_WindowEventID::SDL_WINDOWEVENT_CLOSE as u8, 0, 0);
                hide = Some(i);
            }
            Ev::OtherKey(i, k) => {
                let (sym, scan) = [('a' as i32, 4), ('w' as i32, 26), (13, 40), (32, 44), (9, 43), (0x4000_0050, 80)][k as usize % 6];
                key(e, id(i), sym, scan);
            }
            // shown, exposed, moved, enter, leave, focus gained, focus lost
            Ev::OtherWindow(i, k) => win(e, id(i), [1u8, 3, 4, 10, 11, 12, 13][k as usize % 7], 5, 5),
            Ev::Mouse(i) => unsafe {
                (*e).type_ = sys::SDL_EventType::SDL_MOUSEBUTTONDOWN as u32;
                (*e).button.windowID = id(i);
                (*e).button.button = 1;
                (*e).button.state = 1;
            },
            Ev::Escape(i) => {
                key(e, id(i), 27, 41);
                st.ended = true;
            }
            Ev::Quit => {
                unsafe { (*e).type_ = sys::SDL_EventType::SDL_QUIT as u32 };
                st.ended = true;
            }
        }
        if let Some(i) = hide {
            st.wins[i as usize % n].hidden = true;
            if st.wins.iter().all(|w| w.hidden) {
                st.ended = true;
            }
        }
    });
    1
}

fn show<I>(c: &Case, ims: &[I])
where
    I: image::GenericImageView + image::buffer::ConvertBuffer<RgbaImage>,
{
    if c.single && ims.len() == 1 {
        imageproc::window::display_image(&c.title, &ims[0], c.w, c.h);
    } else {
        let r: Vec<&I> = ims.iter().collect();
        imageproc::window::display_multiple_images(&c.title, &r, c.w, c.h);
    }
}
fn run_case(c: &Case) -> String {
    let raw = |ch| c.images.iter().map(move |b| (b.w, b.h, b.bytes(ch)));
    let gray: Vec<GrayImage> = raw(1).map(|(w, h, d)| GrayImage::from_raw(w, h, d).unwrap()).collect();
    let la: Vec<ImageBuffer<LumaA<u8>, Vec<u8>>> = raw(2).map(|(w, h, d)| ImageBuffer::from_raw(w, h, d).unwrap()).collect();
    let rgb: Vec<RgbImage> = raw(3).map(|(w, h, d)| RgbImage::from_raw(w, h, d).unwrap()).collect();
    let rgba: Vec<RgbaImage> = raw(4).map(|(w, h, d)| RgbaImage::from_raw(w, h, d).unwrap()).collect();
    let want: Vec<RgbaImage> = (0..c.images.len())
        .map(|i| {
            let (w, h) = (c.images[i].w, c.images[i].h);
            RgbaImage::from_fn(w, h, |x, y| match c.format {
                0 => {
                    let v = gray[i].get_pixel(x, y)[0];
                    Rgba([v, v, v, 255])
                }
                1 => {
                    let v = la[i].get_pixel(x, y);
                    Rgba([v[0], v[0], v[0], v[1]])
                }
                2 => {
                    let v = rgb[i].get_pixel(x, y);
                    Rgba([v[0], v[1], v[2], 255])
                }
                _ => *rgba[i].get_pixel(x, y),
            })
        })
        .collect();
    let n = want.len();
    let size = (c.w.max(MIN), c.h.max(MIN));
    ST.with(|s| {
        *s.borrow_mut() = Some(State {
            active: true,
            images: want,
            title: c.title.clone(),
            script: c.script.clone(),
            pos: 0,
            ids: vec![],
            wins: (0..n).map(|_| Win { w: size.0, h: size.1, hidden: false }).collect(),
            shown: HashMap::new(),
            ended: n == 0,
            overrun: 0,
            fail: None,
            resizes: 0,
            scaled: false,
        })
    });
    let r = no_panic(|| match c.format {
        0 => show(c, &gray),
        1 => show(c, &la),
        2 => show(c, &rgb),
        _ => show(c, &rgba),
    });
    ST.with(|s| {
        let st = s.borrow_mut().take().unwrap();
        if let Err(m) = r {
            return format!("Fpanicked: {m}");
        }
        if let Some(m) = st.fail {
            return format!("F{m}");
        }
        if !st.ended {
            return format!("Freturned after {} of {} events although nothing closed it: {:?}", st.pos, st.script.len(), st.script.get(st.pos.wrapping_sub(1)));
        }
        if st.pos < 2 {
            return format!("P{}", st.scaled as u8);
        }
        format!("N{}", st.scaled as u8 + 2 * (st.resizes > 0) as u8)
    })
}
/// The child process: one case per input line, one reply per output line.
pub fn worker() {
    std::env::set_var("SDL_VIDEODRIVER", "dummy");
    install_hook();
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        let c: Case = serde_json::from_str(&l).expect("case");
        println!("R:{}", run_case(&c).replace('\n', " "));
        std::io::stdout().flush().unwrap();
    }
}

struct Child(std::process::Child, BufReader<std::process::ChildStdout>);
impl Drop for Child {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
thread_local! {
    static CHILD: RefCell<Option<Child>> = RefCell::new(None);
}
fn ask(line: &str) -> Option<String> {
    CHILD.with(|ch| {
        let mut ch = ch.borrow_mut();
        if ch.is_none() {
            let mut p = std::process::Command::new(std::env::current_exe().unwrap())
                .arg("--window-worker")
                .stdin(std::process::Stdio::piped())
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::null())
                .spawn()
                .expect("window worker");
            let o = BufReader::new(p.stdout.take().unwrap());
            *ch = Some(Child(p, o));
        }
        let c = ch.as_mut().unwrap();
        let mut go = || -> std::io::Result<Option<String>> {
            let i = c.0.stdin.as_mut().unwrap();
            i.write_all(line.as_bytes())?;
            i.write_all(b"\n")?;
            i.flush()?;
            let mut s = String::new();
            loop {
                s.clear();
                if c.1.read_line(&mut s)? == 0 {
                    return Ok(None);
                }
                if let Some(r) = s.strip_prefix("R:") {
                    return Ok(Some(r.trim_end().to_string()));
                }
            }
        };
        let r = go().ok().flatten();
        if r.is_none() || r.as_deref().map_or(false, |r| r.starts_with('F')) {
            *ch = None;
        }
        r
    })
}
fn check(c: &Case) -> R {
    let Some(r) = ask(&serde_json::to_string(c).unwrap()) else {
        return Err(format!("the process died").into());
    };
    match r.split_at(1) {
        ("F", m) => Err(m.to_string().into()),
        (k, m) => lab(k == "N" || m != "0", match m {
            "0" => "as it is",
            "1" => "scaled",
            "2" => "resized",
            _ => "scaled and resized",
        }),
    }
}

fn pic() -> BoxedStrategy<Big> {
    let d = || prop_oneof![2 => 1u32..40, 3 => 100u32..260, 1 => 1u32..500, 2 => prop::sample::select(vec![149u32, 150, 151, 1, 2, 300, 299, 301])].boxed();
    prop_oneof![6 => (d(), d()), 1 => (1u32..4, 300u32..1200), 1 => (300u32..1200, 1u32..4)]
        .prop_flat_map(|(w, h)| big(2, 2).prop_map(move |b| Big { w, h, ..b }))
        .boxed()
}
fn case() -> BoxedStrategy<Case> {
    let win = || prop_oneof![2 => Just(0u32), 2 => 0u32..200, 3 => 150u32..300, 1 => prop::sample::select(vec![149u32, 150, 151, 299, 300, 301]), 1 => 300u32..520, 1 => 900u32..1100].boxed();
    let size = || prop_oneof![3 => 150u32..300, 1 => Just(150u32), 1 => 150u32..500].boxed();
    let ev = prop_oneof![
        6 => (0u8..4, size(), size()).prop_map(|(i, w, h)| Ev::Resize(i, w, h)),
        2 => (0u8..4).prop_map(Ev::Q),
        2 => (0u8..4).prop_map(Ev::Close),
        1 => (0u8..4, 0u8..6).prop_map(|(i, k)| Ev::OtherKey(i, k)),
        1 => (0u8..4, 0u8..7).prop_map(|(i, k)| Ev::OtherWindow(i, k)),
        1 => (0u8..4).prop_map(Ev::Mouse),
        1 => (0u8..4).prop_map(Ev::Escape),
    ];
    (
        0u8..4,
        any::<bool>(),
        prop_oneof![4 => prop::collection::vec(pic(), 1), 4 => prop::collection::vec(pic(), 2..4), 1 => prop::collection::vec(pic(), 0..6)],
        prop::sample::select(vec!["", "a title", "%s \u{e4}\u{4e2d}", "x"]),
        win(),
        win(),
        prop::collection::vec(ev, 0..7),
    )
        .prop_map(|(format, single, images, title, w, h, mut script)| {
            script.push(Ev::Quit);
            Case { format, single, images, title: title.to_string(), w, h, script }
        })
        .boxed()
}

pub fn prop() -> Prop {
    Prop {
        id: "C42",
        rule: "Random images of four formats (some thin, some exactly as large as the window), one to five windows of random requested size and a random history of resizes, keys, close requests and unrelated events, on SDL2's dummy video driver: before each event every window's size, title, visibility and presented frame are compared with the image scaled to fit and centred on white, and the function must return exactly when the last window is closed, on Escape or on quit. Non-trivial: some image is scaled or some event precedes the end.",
        assumptions: &["images have at least one pixel", "scaling is image::imageops::resize with a triangle filter to sides rounded down (either neighbour within 1e-3)", "translucent pixels are compared within 2 levels of their blend with white", "the display is SDL2's in-memory dummy driver"],
        subs: vec![sub("windows", 6000, case, check)],
    }
}
