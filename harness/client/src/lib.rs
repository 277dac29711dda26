mod acks;
mod addr;
mod cross;
mod life;
mod route;
mod scale;
mod end;
mod wire;
pub mod sym;
mod world;
use sym::*;

#[inline(never)]
#[no_mangle]
pub extern "C" fn rsym_entry(idx: u64, size: u64) {
    std::panic::set_hook(Box::new(|_| {}));
    let n = size as usize;
    match idx {
        1401 => route::histories(n),
        1402 => route::names(n),
        1403 => route::spaces(n),
        1404 => route::arguments(n),
        1501 => acks::histories(n),
        1502 => acks::ids(n),
        1503 => acks::at_once(n),
        1504 => acks::binary(n),
        1601 => acks::acknowledge(n),
        1602 => acks::pending(n),
        1701 => wire::control(n),
        1702 => wire::pings(n),
        1801 => wire::inside(n),
        1802 => wire::itself(n),
        1901 => wire::order(n),
        2001 => wire::stream(n),
        2002 => wire::interrupted(n),
        2401 => wire::violation(n),
        2402 => wire::message(n),
        1902 => life::flush(n),
        2101 => life::handshake(n),
        2102 => life::before_open(n),
        2103 => life::opening(n),
        2104 => life::silence(n),
        2105 => life::together(n),
        2106 => life::attempts(n),
        1411 => route::joined(n),
        1510 => acks::joined(n),
        1410 => route::two(n),
        1509 => acks::two(n),
        2201 => life::close_it(n),
        2202 => life::peer_closes(n),
        2301 => addr::scheme(n),
        2302 => addr::scheme_near(n),
        2303 => addr::port(n),
        2304 => addr::digits(n),
        2305 => addr::path(n),
        2306 => addr::query(n),
        2307 => addr::host(n),
        2308 => addr::text(n),
        2309 => addr::known(n),
        2403 => wire::headed(n),
        2404 => wire::named(n),
        1405 => scale::table(n),
        1505 => scale::waiting(n),
        1507 => acks::meanwhile(n),
        1406 => end::meanwhile(n),
        1905 => end::held(n),
        2203 => end::blocked(n),
        2501 => end::over(n),
        2502 => end::closing_down(n),
        2601 => end::dropped(n),
        1506 => scale::builder(n),
        1603 => scale::forms(n),
        1703 => scale::many_pings(n),
        1903 => scale::large_out(n),
        1904 => scale::many_out(n),
        2003 => scale::large_in(n),
        2004 => scale::many_in(n),
        2405 => scale::declared(n),
        2406 => scale::long(n),
        1408 => route::nearly(n),
        1409 => route::escaped(n),
        1407 => cross::routing(n),
        1508 => cross::acks(n),
        1604 => cross::answers(n),
        1704 => cross::pongs(n),
        1906 => cross::sends(n),
        2407 => cross::errors(n),
        2204 => cross::closes(n),
        2503 => cross::ends(n),
        2602 => cross::drops(n),
        _ => check(false, "no such harness"),
    }
}
