//! What the library's structures say, as plain documents; written field by field and not with the
//! library's own (de)serialisation.
use crate::refm::{self, Item, Node, Raw, Val};
use serde_json::{json, Value};
use swrs::api::block as ab;
use swrs::color::Color;
use swrs::parser::*;

pub fn color(c: Color) -> i64 {
    (((c.alpha() as u32) << 24) | ((c.red() as u32) << 16) | ((c.green() as u32) << 8) | c.blue() as u32) as i32 as i64
}
pub fn mk_color(v: i64) -> Color { let u = v as i32 as u32; Color::from_argb((u >> 24) as u8, (u >> 16) as u8, (u >> 8) as u8, u as u8) }
fn f32v(x: f32) -> Value { json!(x.to_string().parse::<f64>().unwrap()) }
fn bit(b: bool) -> i64 { if b { 1 } else { 0 } }

pub fn keyboard(k: file::KeyboardSetting) -> i64 { match k { file::KeyboardSetting::Unspecified => 0, file::KeyboardSetting::Visible => 1, file::KeyboardSetting::Hidden => 2 } }
pub fn orientation(o: file::Orientation) -> i64 { match o { file::Orientation::Portrait => 0, file::Orientation::Landscape => 1, file::Orientation::Both => 2 } }
pub fn theme(t: file::Theme) -> i64 { match t { file::Theme::None => -1, file::Theme::Default => 0, file::Theme::Actionbar => 1, file::Theme::Fullscreen => 2 } }
pub fn options(toolbar: bool, fullscreen: bool, drawer: bool, fab: bool) -> i64 { bit(toolbar) + 2 * bit(fullscreen) + 4 * bit(drawer) + 8 * bit(fab) }

pub fn file_item(i: &file::FileItem) -> Value {
    json!({"fileName": i.filename, "fileType": match i.file_type { file::FileType::Activity => 0, file::FileType::CustomView => 1, file::FileType::Drawer => 2 },
        "keyboardSetting": keyboard(i.keyboard_setting),
        "options": options(i.options.toolbar_enabled, i.options.fullscreen_enabled, i.options.drawer_enabled, i.options.fab_enabled),
        "orientation": orientation(i.orientation), "theme": theme(i.theme)})
}
pub fn file(f: &file::File) -> Value {
    json!({"activity": f.activities.iter().map(file_item).collect::<Vec<_>>(), "customview": f.custom_views.iter().map(file_item).collect::<Vec<_>>()})
}
pub fn lib_item(i: &library::LibraryItem) -> Value {
    json!({"adUnits": i.ad_units.iter().map(|u| json!({"id": u.id, "name": u.name})).collect::<Vec<_>>(), "data": i.data, "libType": i.lib_type,
        "reserved1": i.reserved1, "reserved2": i.reserved2, "reserved3": i.reserved3, "testDevices": i.test_devices, "useYn": i.use_yn})
}
pub fn library(l: &library::Library) -> Value {
    json!({"firebaseDB": lib_item(&l.firebase_db), "compat": lib_item(&l.compat), "admob": lib_item(&l.admob), "googleMap": lib_item(&l.google_map)})
}
pub fn res_item(i: &resource::ResourceItem) -> Value { json!({"resFullName": i.full_name, "resName": i.name, "resType": i.r#type}) }
pub fn resource(r: &resource::Resource) -> Value {
    let l = |x: &Vec<resource::ResourceItem>| x.iter().map(res_item).collect::<Vec<_>>();
    json!({"images": l(&r.images), "sounds": l(&r.sounds), "fonts": l(&r.fonts)})
}

/// the date is given in seconds under "when"
pub fn project(p: &project::Project) -> Value {
    let c = &p.color_palette;
    json!({"sc_id": p.id.to_string(), "my_app_name": p.app_name, "my_ws_name": p.workspace_name, "my_sc_pkg_name": p.package_name, "sc_ver_code": p.version_code.to_string(),
        "sc_ver_name": p.version_name, "when": p.date_created as i64, "custom_icon": p.custom_icon,
        "color_primary": color(c.color_primary), "color_primary_dark": color(c.color_primary_dark), "color_accent": color(c.color_accent),
        "color_control_normal": color(c.color_control_normal), "color_control_highlight": color(c.color_control_highlight), "sketchware_ver": p.sketchware_version})
}

use view::models as vm;
pub fn size(s: vm::layout::Size) -> i64 { match s { vm::layout::Size::MatchParent => -2, vm::layout::Size::WrapContent => -1, vm::layout::Size::Fixed(n) => n as i64 } }
pub fn mk_size(n: i64) -> vm::layout::Size { match n { -2 => vm::layout::Size::MatchParent, -1 => vm::layout::Size::WrapContent, n => vm::layout::Size::Fixed(n as i32) } }
pub fn lorient(o: vm::layout::Orientation) -> i64 { match o { vm::layout::Orientation::Vertical => 1, vm::layout::Orientation::Unspecified => 0, vm::layout::Orientation::Horizontal => -1 } }
pub fn scale(s: vm::image::ImageScaleType) -> &'static str {
    use vm::image::ImageScaleType::*;
    match s { Center => "CENTER", FitXy => "FIT_XY", FitStart => "FIT_START", FitCenter => "FIT_CENTER", FitEnd => "FIT_END", CenterCrop => "CENTER_CROP", CenterInside => "CENTER_INSIDE" }
}
pub fn ime(i: vm::text::ImeOption) -> i64 { use vm::text::ImeOption::*; match i { Normal => 0, None => 1, Go => 2, Search => 3, Send => 4, Next => 5, Done => 6 } }
pub fn input(i: vm::text::InputType) -> i64 {
    use vm::text::InputType::*;
    match i { NumberDecimal => 8194, NumberSigned => 4098, NumberSignedDecimal => 12290, Password => 129, Phone => 3, Text => 1 }
}
pub fn ttype(t: vm::text::TextType) -> i64 { use vm::text::TextType::*; match t { Normal => 0, Bold => 1, Italic => 2, BoldItalic => 3 } }
pub fn spinner(s: vm::SpinnerMode) -> i64 { match s { vm::SpinnerMode::Dialog => 0, vm::SpinnerMode::Dropdown => 1 } }

pub fn view(v: &vm::AndroidView) -> Value {
    let (l, t) = (&v.layout, &v.text);
    let mut image = json!({"rotate": v.image.rotate, "scaleType": scale(v.image.scale_type)});
    if let Some(r) = &v.image.res_name { image["resName"] = json!(r) }
    let mut o = json!({
        "adSize": v.ad_size, "adUnitId": v.ad_unit_id, "alpha": f32v(v.alpha), "checked": bit(v.checked),
        "choiceMode": match v.choice_mode { vm::ChoiceMode::None => 0, vm::ChoiceMode::Single => 1, vm::ChoiceMode::Multi => 2 },
        "clickable": bit(v.clickable), "customView": v.custom_view, "dividerHeight": v.divider_height, "enabled": bit(v.enabled), "firstDayOfWeek": v.first_day_of_week,
        "id": v.id, "image": image, "indeterminate": if v.indeterminate { "true" } else { "false" }, "index": v.index,
        "layout": {"backgroundColor": color(l.background_color), "gravity": l.gravity.0, "height": size(l.height), "layoutGravity": l.layout_gravity.0,
            "marginBottom": l.margin_bottom, "marginLeft": l.margin_left, "marginRight": l.margin_right, "marginTop": l.margin_top, "orientation": lorient(l.orientation),
            "paddingBottom": l.padding_bottom, "paddingLeft": l.padding_left, "paddingRight": l.padding_right, "paddingTop": l.padding_top,
            "weight": l.weight, "weightSum": l.weight_sum, "width": size(l.width)},
        "max": v.max, "parentType": v.parent_type, "preIndex": v.pre_index, "preParentType": v.pre_parent_type, "progress": v.progress, "progressStyle": v.progress_style,
        "scaleX": f32v(v.scale_x), "scaleY": f32v(v.scale_y), "spinnerMode": spinner(v.spinner_mode),
        "text": {"hint": t.hint, "hintColor": color(t.hint_color), "imeOption": ime(t.ime_option), "inputType": input(t.input_type), "line": t.line, "singleLine": bit(t.single_line),
            "text": t.text, "textColor": color(t.text_color), "textFont": t.text_font, "textSize": t.text_size, "textType": ttype(t.text_type)},
        "translationX": f32v(v.translation_x), "translationY": f32v(v.translation_y), "type": v.r#type,
    });
    if let Some(x) = &v.parent { o["parent"] = json!(x) }
    if let Some(x) = &v.pre_id { o["preId"] = json!(x) }
    if let Some(x) = &v.pre_parent { o["preParent"] = json!(x) }
    o
}
pub fn view_file(v: &view::View) -> Value {
    json!({"layouts": v.layouts.iter().map(|(n, l)| json!([n, l.0.iter().map(view).collect::<Vec<_>>()])).collect::<Vec<_>>(),
        "fabs": v.fabs.iter().map(|(n, f)| json!([n, view(f)])).collect::<Vec<_>>()})
}

use logic as lg;
pub fn vtype(t: lg::variable::VariableType) -> i64 {
    use lg::variable::VariableType::*;
    match t { Boolean => 0, Integer => 1, String => 2, HashMap => 3 }
}
pub fn component(c: &lg::component::Component) -> Value { json!({"componentId": c.id, "param1": c.param1, "param2": c.param2, "param3": c.param3, "type": c.r#type}) }
pub fn event(e: &lg::event::Event) -> Value { json!({"eventName": e.event_name, "eventType": e.event_type, "targetId": e.target_id, "targetType": e.target_type}) }
pub fn block(b: &lg::Block) -> Value {
    json!({"color": color(b.color), "id": b.id, "nextBlock": b.next_block, "opCode": b.op_code, "parameters": b.parameters, "spec": b.spec, "subStack1": b.sub_stack1,
        "subStack2": b.sub_stack2, "type": b.r#type, "typeName": b.type_name})
}
pub fn screen_logic(key: &str, s: &lg::ScreenLogic) -> Value {
    let mut o = json!({"containers": s.block_containers.iter().map(|(n, c)| json!([n, c.0.iter().map(block).collect::<Vec<_>>()])).collect::<Vec<_>>()});
    if s.name != key { o["name differs from key"] = json!(s.name) }
    if let Some(p) = &s.variables { o["var"] = p.0.iter().map(|(k, v)| if *k == v.name { json!([vtype(v.r#type), v.name]) } else { json!(["key", k, v.name]) }).collect() }
    if let Some(p) = &s.list_variables { o["list"] = p.0.iter().map(|(k, v)| if *k == v.name { json!([vtype(v.r#type), v.name]) } else { json!(["key", k, v.name]) }).collect() }
    if let Some(p) = &s.components { o["components"] = p.0.iter().map(component).collect() }
    if let Some(p) = &s.events { o["events"] = p.0.iter().map(event).collect() }
    if let Some(p) = &s.more_blocks { o["func"] = p.0.iter().map(|(k, v)| if *k == v.id { json!([v.id, v.spec]) } else { json!(["key", k, v.id]) }).collect() }
    o
}
pub fn logic(l: &lg::Logic) -> Value { Value::Object(l.screens.iter().map(|(k, s)| (k.clone(), screen_logic(k, s))).collect()) }

// ------------------------------------------------------------------ blocks

pub fn raw(b: &lg::Block) -> Raw {
    Raw { color: color(b.color), id: b.id.clone(), next: b.next_block as i64, op: b.op_code.clone(), params: b.parameters.clone(), spec: b.spec.clone(), ss1: b.sub_stack1 as i64,
        ss2: b.sub_stack2 as i64, ty: b.r#type.clone(), tn: b.type_name.clone() }
}
pub fn mk_block(r: &Raw) -> lg::Block {
    lg::Block { color: mk_color(r.color), id: r.id.clone(), next_block: r.next as i32, op_code: r.op.clone(), parameters: r.params.clone(), spec: r.spec.clone(), sub_stack1: r.ss1 as i32,
        sub_stack2: r.ss2 as i32, r#type: r.ty.clone(), type_name: r.tn.clone() }
}
pub fn mk_container(rs: &[Raw]) -> lg::BlockContainer { lg::BlockContainer(rs.iter().map(mk_block).collect()) }
pub fn json_raw(v: &Value) -> Option<Raw> {
    let s = |k: &str| v[k].as_str().map(|x| x.to_string());
    let i = |k: &str| v[k].as_i64();
    Some(Raw { color: i("color")?, id: s("id")?, next: i("nextBlock")?, op: s("opCode")?, params: v["parameters"].as_array()?.iter().map(|x| x.as_str().map(|y| y.to_string())).collect::<Option<_>>()?,
        spec: s("spec")?, ss1: i("subStack1")?, ss2: i("subStack2")?, ty: s("type")?, tn: s("typeName")? })
}
pub fn raw_json(r: &Raw) -> Value {
    json!({"color": r.color, "id": r.id, "nextBlock": r.next, "opCode": r.op, "parameters": r.params, "spec": r.spec, "subStack1": r.ss1, "subStack2": r.ss2, "type": r.ty, "typeName": r.tn})
}

pub fn items(c: &ab::BlockContent) -> Vec<Item> {
    fn val<T: std::fmt::Debug + Clone + PartialEq>(v: &ab::ArgValue<T>, lit: impl Fn(&T) -> Val) -> Val {
        match v {
            ab::ArgValue::Value(x) => lit(x),
            ab::ArgValue::Block(b) => Val::Tree(Box::new(node(b))),
            ab::ArgValue::BlockPlaceholder { block_id } => Val::Ref(*block_id),
            ab::ArgValue::Empty => Val::Unset,
        }
    }
    c.items.iter().map(|i| match i {
        ab::SpecItem::Text(t) => Item::Word(t.clone()),
        ab::SpecItem::Parameter(a) => match a {
            ab::Argument::String { name, value } => Item::Arg('s', name.clone(), val(value, |x| Val::Text(x.clone()))),
            ab::Argument::Number { name, value } => Item::Arg('d', name.clone(), val(value, |x| Val::Num(*x))),
            ab::Argument::Boolean { name, value } => Item::Arg('b', name.clone(), val(value, |x| Val::Bool(*x))),
            ab::Argument::Menu { name, value } => Item::Arg('m', Some(name.clone()), val(value, |x| Val::Text(x.clone()))),
        },
    }).collect()
}
pub fn btype(t: &ab::BlockType) -> (String, String) {
    use ab::{ArgumentBlockReturnType as R, BlockControl as C, BlockType as T, ListItem as L};
    let (a, b) = match t {
        T::Regular => (" ", ""), T::Argument(R::Boolean) => ("b", ""), T::Argument(R::String) => ("s", ""), T::Argument(R::Number) => ("d", ""),
        T::Argument(R::View { type_name }) => ("v", type_name.as_str()), T::Argument(R::Component { type_name }) => ("p", type_name.as_str()),
        T::Argument(R::List { inner_type: L::String }) => ("l", "List String"), T::Argument(R::List { inner_type: L::Number }) => ("l", "List Number"),
        T::Control(C::OneNest) => ("c", ""), T::Control(C::TwoNest) => ("e", ""), T::Control(C::EndingBlock) => ("f", ""),
    };
    (a.to_string(), b.to_string())
}
pub fn node(b: &ab::Block) -> Node {
    let (ty, tn) = btype(&b.block_type);
    Node { color: color(b.color), op: b.op_code.clone(), items: items(&b.content), ty, tn, ss1: b.sub_stack1.as_ref().map(nodes), ss2: b.sub_stack2.as_ref().map(nodes) }
}
pub fn nodes(b: &ab::Blocks) -> Vec<Node> { b.0.iter().map(node).collect() }
pub fn program(b: &ab::Blocks) -> String { refm::show(&refm::norm(&nodes(b))) }

pub fn mk_items(items: &[Item]) -> ab::BlockContent {
    fn arg<T: std::fmt::Debug + Clone + PartialEq>(v: &Val, lit: impl Fn(&Val) -> T) -> ab::ArgValue<T> {
        match v {
            Val::Unset => ab::ArgValue::Empty,
            Val::Ref(r) => ab::ArgValue::BlockPlaceholder { block_id: *r },
            Val::Tree(n) => ab::ArgValue::Block(mk_node(n)),
            v => ab::ArgValue::Value(lit(v)),
        }
    }
    let text = |v: &Val| if let Val::Text(t) = v { t.clone() } else { panic!("text") };
    ab::BlockContent { items: items.iter().map(|i| match i {
        Item::Word(w) => ab::SpecItem::Text(w.clone()),
        Item::Arg(k, n, v) => ab::SpecItem::Parameter(match k {
            's' => ab::Argument::String { name: n.clone(), value: arg(v, text) },
            'd' => ab::Argument::Number { name: n.clone(), value: arg(v, |v| if let Val::Num(x) = v { *x } else { panic!("num") }) },
            'b' => ab::Argument::Boolean { name: n.clone(), value: arg(v, |v| if let Val::Bool(x) = v { *x } else { panic!("bool") }) },
            _ => ab::Argument::Menu { name: n.clone().unwrap(), value: arg(v, text) },
        }),
    }).collect() }
}
pub fn mk_btype(ty: &str, tn: &str) -> ab::BlockType {
    use ab::{ArgumentBlockReturnType as R, BlockControl as C, BlockType as T, ListItem as L};
    match ty {
        " " => T::Regular, "b" => T::Argument(R::Boolean), "s" => T::Argument(R::String), "d" => T::Argument(R::Number),
        "v" => T::Argument(R::View { type_name: tn.into() }), "p" => T::Argument(R::Component { type_name: tn.into() }),
        "l" => T::Argument(R::List { inner_type: if tn == "List Number" { L::Number } else { L::String } }),
        "c" => T::Control(C::OneNest), "e" => T::Control(C::TwoNest), _ => T::Control(C::EndingBlock),
    }
}
pub fn mk_node(n: &Node) -> ab::Block {
    ab::Block { sub_stack1: n.ss1.as_ref().map(|s| mk_nodes(s)), sub_stack2: n.ss2.as_ref().map(|s| mk_nodes(s)), color: mk_color(n.color), op_code: n.op.clone(),
        content: mk_items(&n.items), block_type: mk_btype(&n.ty, &n.tn) }
}
pub fn mk_nodes(n: &[Node]) -> ab::Blocks { ab::Blocks(n.iter().map(mk_node).collect()) }

// ------------------------------------------------------------------ the editable project

pub fn wrapper(w: &ResourceFileWrapper) -> Value {
    match w {
        ResourceFileWrapper::Path(p) => json!({"path": p.to_string_lossy()}),
        ResourceFileWrapper::StringId { id, res_full_name, res_type } => json!({"string": id, "name": res_full_name, "type": format!("{:?}", res_type)}),
        ResourceFileWrapper::U32Id { id, res_full_name, res_type } => json!({"number": id, "name": res_full_name, "type": format!("{:?}", res_type)}),
    }
}

/// the kind of a view with its attributes, under the names of the raw attributes they come from
pub fn kind(k: &swrs::api::view::ViewType) -> Value {
    use swrs::api::view::ViewType::*;
    match k {
        LinearLayout { orientation, gravity } => json!({"kind": "LinearLayout", "layout.orientation": lorient(*orientation), "layout.gravity": gravity.0}),
        ScrollView { orientation, gravity } => json!({"kind": "ScrollView", "scroll": lorient(*orientation), "layout.gravity": gravity.0}),
        Button { text, text_color, text_size, text_style } => json!({"kind": "Button", "text.text": text, "text.textColor": color(*text_color), "text.textSize": text_size, "text.textType": ttype(*text_style)}),
        TextView { text, text_color, text_size, single_line, text_font, text_style, lines } => json!({"kind": "TextView", "text.text": text, "text.textColor": color(*text_color),
            "text.textSize": text_size, "text.singleLine": bit(*single_line), "text.textFont": text_font, "text.textType": ttype(*text_style), "text.line": lines}),
        EditText { text, text_color, text_size, single_line, text_font, text_style, lines, hint, hint_color, ime_option, input_type } => json!({"kind": "EditText", "text.text": text,
            "text.textColor": color(*text_color), "text.textSize": text_size, "text.singleLine": bit(*single_line), "text.textFont": text_font, "text.textType": ttype(*text_style),
            "text.line": lines, "text.hint": hint, "text.hintColor": color(*hint_color), "text.imeOption": ime(*ime_option), "text.inputType": input(*input_type)}),
        ImageView { image_res_name, image_scale_type } => json!({"kind": "ImageView", "image.resName": image_res_name, "image.scaleType": scale(*image_scale_type)}),
        WebView => json!({"kind": "WebView"}),
        ProgressBar { max_progress, progress, indeterminate, progress_style } => json!({"kind": "ProgressBar", "max": max_progress, "progress": progress,
            "indeterminate": if *indeterminate { "true" } else { "false" }, "progressStyle": progress_style}),
        ListView { divider_height, custom_view } => json!({"kind": "ListView", "dividerHeight": divider_height, "customView": custom_view}),
        Spinner { spinner_mode } => json!({"kind": "Spinner", "spinnerMode": spinner(*spinner_mode)}),
        CheckBox { checked, text, text_color, text_size, text_font, text_style } => json!({"kind": "CheckBox", "checked": bit(*checked), "text.text": text, "text.textColor": color(*text_color),
            "text.textSize": text_size, "text.textFont": text_font, "text.textType": ttype(*text_style)}),
        Switch { checked, text, text_color, text_size, text_font, text_style } => json!({"kind": "Switch", "checked": bit(*checked), "text.text": text, "text.textColor": color(*text_color),
            "text.textSize": text_size, "text.textFont": text_font, "text.textType": ttype(*text_style)}),
        SeekBar { max_progress, progress } => json!({"kind": "SeekBar", "max": max_progress, "progress": progress}),
        CalendarView { first_day_of_week } => json!({"kind": "CalendarView", "firstDayOfWeek": first_day_of_week}),
        Fab { image_res_name } => json!({"kind": "Fab", "image.resName": image_res_name}),
        AdView { adview_size } => json!({"kind": "AdView", "adSize": adview_size}),
        MapView => json!({"kind": "MapView"}),
    }
}

/// an editable view without its raw attributes
pub fn aview(v: &swrs::api::view::View) -> Value {
    json!({"id": v.id, "kind": match &v.view { Ok(k) => kind(k), Err(_) => json!("none") },
        "layout.backgroundColor": color(v.background_color), "layout.height": size(v.height), "layout.width": size(v.width),
        "padding": [v.padding.top, v.padding.right, v.padding.bottom, v.padding.left], "margin": [v.margin.top, v.margin.right, v.margin.bottom, v.margin.left],
        "layout.weight": v.weight, "layout.weightSum": v.weight_sum, "layout.layoutGravity": v.layout_gravity.0,
        "children": v.children.iter().map(aview).collect::<Vec<_>>()})
}
/// the type id Sketchware gives to this kind of component, and its parameter
pub fn ckind(k: &swrs::api::component::ComponentKind) -> (i64, String) {
    use swrs::api::component::ComponentKind::*;
    let n = String::new();
    match k {
        Intent => (1, n), SharedPreferences { path } => (2, path.clone()), Calendar => (3, n), Vibrator => (4, n), Timer => (5, n), FirebaseDatabase { path } => (6, path.clone()), Dialog => (7, n),
        MediaPlayer => (8, n), SoundPool => (9, n), ObjectAnimator => (10, n), Gyroscope => (11, n), FirebaseAuth => (12, n), InterstitialAd => (13, n), FirebaseStorage { path } => (14, path.clone()),
        Camera => (15, n), FilePicker { mime_type } => (16, mime_type.clone()), RequestNetwork => (17, n), TextToSpeech => (18, n), SpeechToText => (19, n), BluetoothConnect => (20, n), LocationManager => (21, n),
    }
}
pub fn ascreen(s: &swrs::api::screen::Screen) -> Value {
    use swrs::api::screen::EventType as E;
    json!({"layoutName": s.layout_name, "javaName": s.java_name, "layout": s.layout.iter().map(aview).collect::<Vec<_>>(),
        "var": s.variables.iter().map(|(k, v)| json!([k, vtype(v.r#type), v.name])).collect::<Vec<_>>(),
        "list": s.list_variables.iter().map(|(k, v)| json!([k, vtype(v.r#type), v.name])).collect::<Vec<_>>(),
        "func": s.more_blocks.iter().map(|(k, m)| json!([k, m.name, refm::render(&items(&m.spec)), program(&m.code)])).collect::<Vec<_>>(),
        "components": s.components.iter().map(|(k, c)| { let (t, p) = ckind(c); json!([k, t, p]) }).collect::<Vec<_>>(),
        "events": s.events.iter().map(|e| json!([e.name, match &e.event_type {
            E::ViewEvent { id, view_type } => json!([1, id, view_type]), E::ComponentEvent { id, component_type } => json!([2, id, component_type]), E::ActivityEvent => json!([3]) },
            program(&e.code)])).collect::<Vec<_>>(),
        "fab": s.fab.as_ref().map(aview), "options": options(s.toolbar_enabled, s.fullscreen_enabled, s.drawer_enabled, s.fab_enabled),
        "orientation": orientation(s.orientation), "theme": theme(s.theme), "keyboardSetting": keyboard(s.keyboard_setting)})
}
pub fn aproject(p: &swrs::api::SketchwareProject) -> Value {
    let (m, c, l) = (&p.metadata, &p.colors, &p.libraries);
    let res = |x: &swrs::LinkedHashMap<swrs::api::ResourceId, ResourceFileWrapper>| x.iter().map(|(k, w)| json!([k.0, wrapper(w)])).collect::<Vec<_>>();
    json!({"icon": p.custom_icon.as_ref().map(wrapper),
        "meta": {"sc_id": m.local_id, "my_app_name": m.name, "my_ws_name": m.workspace_name, "my_sc_pkg_name": m.package_name, "when": m.time_created as i64,
            "sketchware_ver": m.sketchware_version, "sc_ver_name": m.version_name, "sc_ver_code": m.version_code},
        "colors": [color(c.color_primary), color(c.color_primary_dark), color(c.color_accent), color(c.color_control_normal), color(c.color_control_highlight)],
        "screens": p.screens.iter().map(ascreen).collect::<Vec<_>>(),
        "custom": p.custom_views.iter().map(|v| json!([v.res_name, v.layout.iter().map(aview).collect::<Vec<_>>()])).collect::<Vec<_>>(),
        "libs": {"compat": l.app_compat_enabled, "firebase": l.firebase.as_ref().map(|f| json!([f.project_id, f.app_id, f.api_key, f.storage_bucket])),
            "admob": l.ad_mob.as_ref().map(|a| json!([a.ad_units.iter().map(|u| json!([u.id, u.name])).collect::<Vec<_>>(), a.test_devices])),
            "map": l.google_map.as_ref().map(|g| json!(g.api_key))},
        "images": res(p.resources.get_images()), "sounds": res(p.resources.get_sounds()), "fonts": res(p.resources.get_fonts())})
}
