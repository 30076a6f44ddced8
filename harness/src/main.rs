//! vh: property checks for the MQTT broker.
fn main() {
    vh_engine::main(vh_engine::Broker {
        start: mqtt_broker::sim_main,
        #[cfg(feature = "hook")]
        recode: Some(mqtt_broker::verif_hook::recode),
        #[cfg(not(feature = "hook"))]
        recode: None,
    });
}

/// Clocks read by the broker follow virtual time.
/// # Safety
/// As the C library's.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut libc::timespec) -> i32 {
    vh_engine::clock::gettime(clock, ts)
}
