use crate::timer::DiscardOnDropHistogramTimer as Timer;
use prometheus_exporter::prometheus::{Histogram, HistogramOpts};
use vc::{check_eq, clock, Ctx};

pub fn m01(ctx: &Ctx) {
    let ops = ctx.b(6, 7);
    ctx.explore("timer histories", |ch| {
        clock::start(1_700_000_000);
        let hist: Vec<Histogram> = (0..2)
            .map(|i| Histogram::with_opts(HistogramOpts::new(format!("h{i}"), "h")).unwrap())
            .collect();
        let mut now = 0u64; // quarter seconds
        let mut timers: Vec<(Timer, usize, u64)> = vec![];
        let mut model = [(0u64, 0u64); 2]; // samples, sum in quarter seconds
        let mut created = 0;
        for _ in 0..ops {
            // stop, create on either histogram, advance, or one of six ends for a live timer
            let can_create = if created < 3 { 2 } else { 0 };
            let k = ch.pick(1 + 1 + can_create + timers.len() * 6);
            if k == 0 {
                break;
            }
            if k == 1 {
                // 5.25 s: whole seconds and a fraction
                now += 21;
                clock::advance_ms(5250);
                ch.note(|| "advance 5.25 s".into());
            } else if k < 2 + can_create {
                let h = k - 2;
                created += 1;
                timers.push((Timer::new(hist[h].clone()), h, now));
                ch.note(|| format!("create timer on histogram {h}"));
            } else {
                let k = k - 2 - can_create;
                let (t, h, start) = timers.remove(k / 6);
                let elapsed = now - start;
                let secs = elapsed as f64 / 4.0;
                let end = ["record", "observe", "discard", "drop", "panic", "other thread record"][k % 6];
                ch.note(|| format!("{end} timer of histogram {h} started at {start}/4 s, now {now}/4 s"));
                match end {
                    "record" => {
                        check_eq!(t.stop_and_record(), secs, "time returned by stop_and_record");
                        model[h].0 += 1;
                        model[h].1 += elapsed;
                    }
                    "observe" => {
                        t.observe_duration();
                        model[h].0 += 1;
                        model[h].1 += elapsed;
                    }
                    "discard" => {
                        check_eq!(t.stop_and_discard(), secs, "time returned by stop_and_discard");
                    }
                    "drop" => drop(t),
                    "panic" => {
                        let _ = vc::no_panic(move || {
                            let _t = t;
                            panic!("while a timer is alive");
                        });
                    }
                    _ => {
                        let r = clock::reading();
                        let got = vc::on_thread(move || {
                            clock::set_reading(r);
                            t.stop_and_record()
                        })?;
                        check_eq!(got, secs, "time returned by stop_and_record on another thread");
                        model[h].0 += 1;
                        model[h].1 += elapsed;
                    }
                }
            }
            for h in 0..2 {
                ch.eval();
                check_eq!(hist[h].get_sample_count(), model[h].0, "samples of histogram {h}");
                check_eq!(hist[h].get_sample_sum(), model[h].1 as f64 / 4.0, "sum of histogram {h}");
            }
            let live: Vec<(usize, u64)> = timers.iter().map(|t| (t.1, t.2)).collect();
            ch.state(&(live, model, now));
        }
        // everything still running is dropped
        timers.clear();
        for h in 0..2 {
            check_eq!(hist[h].get_sample_count(), model[h].0, "samples of histogram {h} at the end");
        }
        ch.outcome(&model);
        Ok(())
    });
    // sub-second and long durations with full nanosecond detail
    ctx.range("single durations", 40_000, |i, ch| {
        clock::start(1_700_000_000);
        let h = Histogram::with_opts(HistogramOpts::new("h", "h")).unwrap();
        let (secs, nanos) = ((i / 200) * (i / 200), [0u64, 1, 999, 1_000, 999_999, 1_000_000, 500_000_000, 999_999_999][(i % 8) as usize] + (i % 200) / 8 * 7);
        let nanos = nanos.min(999_999_999);
        let t = Timer::new(h.clone());
        clock::advance_ns(secs * 1_000_000_000 + nanos);
        let got = t.stop_and_record();
        ch.eval();
        let want = secs as f64 + nanos as f64 / 1e9;
        vc::check!((got - want).abs() <= want * 1e-12 + 1e-12, "recorded {got} for {want} s");
        check_eq!(h.get_sample_sum(), got, "sample for {want} s");
        check_eq!(h.get_sample_count(), 1, "samples for {want} s");
        Ok(())
    });
}
