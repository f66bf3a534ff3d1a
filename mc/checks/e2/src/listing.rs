//! The lists of archives.
use e2store::utils::{get_e2hs_files, get_e2ss_files, get_era1_files, get_era_files, get_shuffled_era1_files, ERA1_FILE_COUNT};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use vc::{check, check_eq, Ctx};

const PAGES: [&str; 4] =
    ["https://mainnet.era.nimbus.team/", "https://era1.ethportal.net/index.html", "https://e2hs.ethportal.net/index.html", "https://e2ss.ethportal.net/index.html"];

fn block_on<T>(f: impl std::future::Future<Output = T>) -> T {
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}

/// A link to the archive of the epoch, and the address it stands for on the page.
fn link(page: &str, epoch: u64, form: usize) -> (String, String) {
    let site = &page[..page[8..].find('/').unwrap() + 9];
    let name = format!("mainnet-{epoch:05}-{:08x}.era", epoch.wrapping_mul(0x9e3779b1) as u32);
    match form {
        0 => (name.clone(), format!("{site}{name}")),
        1 => (format!("/data/{name}"), format!("{site}data/{name}")),
        2 => (format!("https://files.example/{name}"), format!("https://files.example/{name}")),
        _ => (format!("./{name}"), format!("{site}{name}")),
    }
}

fn page(links: &[String]) -> String {
    let mut text = "<html><body><h1>Archives</h1><a href=\"../\">up</a><a href='checksums.txt'>sums</a>".to_owned();
    for l in links {
        text += &format!("<p><a href=\"{l}\" class=\"x\">file</a> 12 MB</p>");
    }
    text + "<a href=\"https://example.org/\">elsewhere</a></body></html>"
}

fn get(which: usize, text: Option<String>) -> Result<(Option<BTreeMap<u64, String>>, Vec<String>), String> {
    let asked = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let log = asked.clone();
    reqwest::fake::set(move |url, _| {
        log.borrow_mut().push(url.to_owned());
        text.clone().map(|t| (200, t.into_bytes()))
    });
    let client = reqwest::Client::new();
    let got: anyhow::Result<HashMap<u64, String>> = vc::no_panic(|| {
        block_on(async {
            match which {
                0 => get_era_files(&client).await,
                1 => get_era1_files(&client).await,
                2 => get_e2hs_files(&client).await,
                _ => get_e2ss_files(&client).await,
            }
        })
    })?;
    reqwest::fake::clear();
    let asked = asked.borrow().clone();
    Ok((got.ok().map(|m| m.into_iter().collect()), asked))
}

pub fn e04(ctx: &Ctx) {
    let epochs = [0u64, 1, 2, 3, 4, 6, 1896, 99999];
    let epochs = &epochs[..ctx.b(6, 8)];
    ctx.explore("few links", |ch| {
        let which = ch.pick(4);
        let set = ch.subset(epochs.len());
        let chosen: Vec<u64> = (0..epochs.len()).filter(|i| set >> i & 1 == 1).map(|i| epochs[i]).collect();
        let turn = ch.pick(2);
        // All links of one form, or of all forms in turn.
        let form = ch.pick(5);
        ch.note(|| format!("{}: epochs {chosen:?}, order {turn}, form {form}", PAGES[which]));
        let mut links: Vec<(u64, (String, String))> =
            chosen.iter().enumerate().map(|(i, e)| (*e, link(PAGES[which], *e, if form == 4 { i % 4 } else { form }))).collect();
        let want: BTreeMap<u64, String> = links.iter().map(|(e, l)| (*e, l.1.clone())).collect();
        if turn == 1 {
            links.reverse();
        }
        let hrefs: Vec<String> = links.iter().map(|l| l.1 .0.clone()).collect();
        let (got, asked) = get(which, Some(page(&hrefs)))?;
        let gapless = !chosen.is_empty() && chosen.iter().enumerate().all(|(i, e)| i as u64 == *e);
        let good = match which {
            0 | 2 => gapless,
            1 => false,
            _ => true,
        };
        ch.eval();
        check_eq!(got, good.then_some(want), "archives");
        check_eq!(asked, vec![PAGES[which].to_owned()], "pages asked for");
        ch.outcome(&(which, chosen, good));
        Ok(())
    });
    ctx.explore("all archives before the merge", |ch| {
        check_eq!(ERA1_FILE_COUNT, 1897, "number of archives before the merge");
        let n = *ch.choose(&[0u64, 1, 1895, 1896, 1897, 1898, 2000]);
        let missing = *ch.choose(&[u64::MAX, 0, 1, 1000, 1895, 1896]);
        let which = ch.pick(3);
        let shuffled = ch.flag();
        ch.note(|| format!("{n} archives without {missing}, page {which}"));
        let all: Vec<u64> = (0..n).filter(|e| *e != missing).collect();
        let links: Vec<(String, String)> = all.iter().map(|e| link(PAGES[which], *e, 0)).collect();
        let text = page(&links.iter().map(|l| l.0.clone()).collect::<Vec<_>>());
        let gapless = !all.is_empty() && all.last() == Some(&(all.len() as u64 - 1));
        let good = gapless && (which != 1 || all.len() == 1897);
        ch.eval();
        if shuffled && which == 1 {
            reqwest::fake::set(move |url, _| (url == PAGES[1]).then(|| (200, text.clone().into_bytes())));
            let got = vc::no_panic(|| block_on(get_shuffled_era1_files(&reqwest::Client::new())))?;
            reqwest::fake::clear();
            check_eq!(got.is_ok(), good, "whether the list is accepted");
            if let Ok(got) = got {
                let distinct: BTreeSet<&String> = got.iter().collect();
                check!(got.len() == 1897 && distinct == links.iter().map(|l| &l.1).collect(), "the shuffled list has other archives");
            }
        } else {
            let (got, _) = get(which, Some(text))?;
            let want: BTreeMap<u64, String> = all.iter().copied().zip(links.into_iter().map(|l| l.1)).collect();
            check_eq!(got.is_some(), good, "whether the list is accepted");
            check!(got.is_none() || got == Some(want), "the list has other archives");
        }
        ch.outcome(&(which, n, missing, good));
        Ok(())
    });
    ctx.explore("no page", |ch| {
        let which = ch.pick(4);
        let text = *ch.choose(&[None, Some(""), Some("<html>Bad gateway</html>")]);
        ch.note(|| format!("{}: {text:?}", PAGES[which]));
        let (got, _) = get(which, text.map(str::to_owned))?;
        ch.eval();
        // The list of snapshots may be empty.
        let want = (which == 3 && text.is_some()).then(BTreeMap::new);
        check_eq!(got, want, "archives");
        ch.outcome(&(which, text));
        Ok(())
    });
}
