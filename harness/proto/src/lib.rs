pub mod sym;
mod oracle;
mod text;
mod engine_h;
mod packet;
mod de_h;
mod ser_h;
mod scale;

#[inline(never)]
#[no_mangle]
pub extern "C" fn rsym_entry(idx: u64, size: u64) {
    std::panic::set_hook(Box::new(|_| {}));
    let n = size as usize;
    match idx {
        101 => engine_h::sequence(n),
        102 => engine_h::any_text(n),
        103 => engine_h::any_binary(n),
        104 => engine_h::any_control(n),
        105 => engine_h::open_sid(n),
        106 => engine_h::open_number(n),
        107 => engine_h::open_malformed(n),
        201 => engine_h::text_round(n),
        202 => engine_h::bytes_round(n),
        203 => engine_h::package_text_any(n),
        204 => engine_h::package_binary_any(n),
        601 => packet::round_name(n),
        602 => packet::round_nsp(n),
        603 => packet::round_args(n),
        604 => packet::round_arg(n),
        605 => packet::round_id(n),
        606 => packet::round_many(n),
        701 => packet::connect(n),
        801 => packet::assembly(n),
        802 => packet::stray_binary(n),
        803 => packet::text_count(n),
        901 => packet::access(n),
        902 => packet::access_list(n),
        1001 => ser_h::wrapped(n),
        1002 => ser_h::elements(n),
        1003 => ser_h::runs(n),
        1004 => ser_h::arguments(n),
        1005 => ser_h::nested(n),
        1101 => ser_h::failures(n),
        1201 => de_h::scalar_args(n),
        1202 => de_h::compound_args(n),
        1203 => de_h::map_args(n),
        1204 => de_h::fixed(n),
        1205 => de_h::hinted_args(n),
        1206 => de_h::hinted_keys(n),
        1209 => de_h::like_placeholders(n),
        1207 => de_h::limits(n),
        1301 => de_h::placeholders(n),
        1302 => de_h::several(n),
        1303 => de_h::bad_numbers(n),
        1304 => de_h::no_panic(n),
        1305 => de_h::display(n),
        1306 => de_h::other_order(n),
        401 => text::free(n),
        402 => text::header(n),
        403 => text::binheader(n),
        404 => text::namespace(n),
        405 => text::arguments(n),
        406 => text::confusing(n),
        501 => text::digits(n),
        108 => scale::many_messages(n),
        109 => scale::long_message(n),
        205 => scale::text_long(n),
        407 => scale::long_parts(n),
        607 => scale::round_large(n),
        805 => scale::declared(n),
        804 => scale::many_attachments(n),
        903 => scale::many_args(n),
        1006 => scale::large_buffer(n),
        1007 | 1102 => scale::many_buffers(n),
        1208 => scale::long_same(n),
        1307 => scale::many_args(n),
        _ => sym::check(false, "no such harness"),
    }
}
