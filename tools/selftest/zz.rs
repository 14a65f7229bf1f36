pub fn a_rfind() -> bool { "a,b,c".rfind(',') == Some(3) }
pub fn a_rsplit_once() -> bool { "a,b,c".rsplit_once(',') == Some(("a,b", "c")) }
pub fn a_rsplit() -> bool { "a,b,c".rsplit(',').next() == Some("c") }
pub fn a_split_incl() -> bool { "a\nb\nc".split_inclusive('\n').count() == 3 }
pub fn a_split_term() -> bool { "a,b,".split_terminator(',').count() == 2 }
pub fn a_rsplitn() -> bool { "a,b,c".rsplitn(2, ',').last() == Some("a,b") }
pub fn a_bytes() -> bool { "abc".bytes().filter(|b| *b == b'b').count() == 1 }
pub fn a_bytes2() -> bool { "abc".as_bytes()[1] == b'b' }
pub fn a_replacen() -> bool { "a,b,c".replacen(',', ";", 1) == "a;b,c" }
pub fn a_drain() -> bool { let mut v = vec![1, 2, 3]; let w: Vec<i32> = v.drain(..).collect(); v.is_empty() && w.len() == 3 }
pub fn a_drain2() -> bool { let mut v = vec![1, 2, 3]; let w: Vec<i32> = v.drain(1..).collect(); v.len() == 1 && w[0] == 2 }
pub fn a_split_off() -> bool { let mut v = vec![1, 2, 3]; let w = v.split_off(1); v.len() == 1 && w.len() == 2 }
pub fn a_retain() -> bool { let mut v = vec![1, 2, 3]; v.retain(|x| *x != 2); v == [1, 3] }
pub fn a_concat() -> bool { ["a", "b"].concat() == "ab" }
pub fn a_join() -> bool { ["a", "b"].join(":") == "a:b" }
pub fn a_join2() -> bool { vec!["a".to_string(), "b".to_string()].join(":") == "a:b" }
pub fn a_split_first() -> bool { let v = vec![1, 2]; matches!(v.split_first(), Some((1, r)) if r.len() == 1) }
pub fn a_split_last() -> bool { let v = vec![1, 2]; matches!(v.split_last(), Some((2, r)) if r.len() == 1) }
pub fn a_rposition() -> bool { [1, 2, 1].iter().rposition(|x| *x == 1) == Some(2) }
pub fn a_rfindi() -> bool { [1, 2, 1].iter().rfind(|x| **x == 2) == Some(&2) }
pub fn a_try_fold() -> bool { [1, 2, 1].iter().try_fold(0, |a, x| if *x == 2 { Err(a) } else { Ok(a + x) }) == Err(1) }
pub fn a_try_for_each() -> bool { [1, 2].iter().try_for_each(|x| if *x == 3 { None } else { Some(()) }).is_some() }
pub fn a_reduce() -> bool { [1, 2].into_iter().reduce(|a, b| a * 10 + b) == Some(12) }
pub fn a_max() -> bool { [1, 2].iter().max() == Some(&2) && [1, 2].iter().min() == Some(&1) }
pub fn a_max_key() -> bool { ["a", "bb"].iter().max_by_key(|x| x.len()) == Some(&"bb") }
pub fn a_step_by() -> bool { [1, 2, 3].iter().step_by(2).count() == 2 }
pub fn a_inspect() -> bool { let mut n = 0; [1, 2].iter().inspect(|_| n += 1).count() == 2 && n == 2 }
pub fn a_partition() -> bool { let (a, b): (Vec<i32>, Vec<i32>) = [1, 2, 3].into_iter().partition(|x| *x == 2); a.len() == 1 && b.len() == 2 }
pub fn a_iter_eq() -> bool { [1, 2].iter().eq([1, 2].iter()) }
pub fn a_unzip() -> bool { let (a, b): (Vec<i32>, Vec<i32>) = [(1, 2)].into_iter().unzip(); a[0] == 1 && b[0] == 2 }
pub fn a_chunks() -> bool { let v = [1, 2, 3]; v.chunks(2).count() == 2 }
pub fn a_windows() -> bool { let v = [1, 2, 3]; v.windows(2).all(|w| w[0] < w[1]) }
pub fn a_for_range() -> bool { let mut n = 0; for i in (0..3).rev() { n = n * 10 + i; } n == 210 }
pub fn a_incl() -> bool { let mut n = 0; for i in 1..=3 { n += i; } n == 6 }
pub fn a_while_pop() -> bool { let mut v = vec![1, 2]; let mut n = 0; while let Some(x) = v.pop() { n = n * 10 + x; } n == 21 }
pub fn a_sort() -> bool { let mut v = vec![2, 1]; v.sort(); v == [1, 2] }
pub fn a_swap_remove() -> bool { let mut v = vec![1, 2, 3]; v.swap_remove(0); v == [3, 2] }
pub fn a_swap() -> bool { let mut v = vec![1, 2, 3]; v.swap(0, 2); v == [3, 2, 1] }
pub fn a_rotate() -> bool { let mut v = vec![1, 2, 3]; v.reverse(); v == [3, 2, 1] }
pub fn a_dedup() -> bool { let mut v = vec![1, 1, 3]; v.dedup(); v == [1, 3] }
pub fn a_string_insert() -> bool { let mut s = String::from("bc"); s.insert(0, 'a'); s.insert_str(0, "xx"); s == "xxabc" }
pub fn a_string_pop() -> bool { let mut s = String::from("bc"); s.pop() == Some('c') && s == "b" }
pub fn a_string_trunc() -> bool { let mut s = String::from("bcd"); s.truncate(1); s == "b" }
pub fn a_string_clear() -> bool { let mut s = String::from("bcd"); s.clear(); s.is_empty() }
pub fn a_string_remove() -> bool { let mut s = String::from("bcd"); s.remove(0) == 'b' && s == "cd" }
pub fn a_string_retain() -> bool { let mut s = String::from("bcd"); s.retain(|c| c != 'c'); s == "bd" }
pub fn a_string_drain() -> bool { let mut s = String::from("bcd"); s.drain(..1); s == "cd" }
pub fn a_string_split_off() -> bool { let mut s = String::from("bcd"); s.split_off(1) == "cd" && s == "b" }
pub fn a_string_add() -> bool { let s = String::from("bcd"); s + "e" == "bcde" }
pub fn a_string_extend() -> bool { let mut s = String::new(); s.extend(['a', 'b']); s.extend(vec!["c"]); s == "abc" }
pub fn a_write() -> bool { use std::fmt::Write; let mut s = String::new(); write!(s, "{}-{:02}", 1, 2).unwrap(); s == "1-02" }
pub fn a_write2() -> bool { use std::fmt::Write; let mut s = String::new(); writeln!(&mut s, "{:>3}", 1).unwrap(); s == "  1\n" }
pub fn a_chars_rev() -> bool { "abc".chars().rev().collect::<String>() == "cba" }
pub fn a_char_ind() -> bool { "abc".char_indices().find(|(_, c)| *c == 'b').map(|x| x.0) == Some(1) }
pub fn a_chars_as_str() -> bool { let mut c = "abc".chars(); c.next(); c.as_str() == "bc" }
pub fn a_chars_pos() -> bool { "abc".chars().position(|c| c == 'c') == Some(2) }
pub fn a_chars_nth() -> bool { "abc".chars().nth(1) == Some('b') }
pub fn a_chars_last() -> bool { "abc".chars().last() == Some('c') }
pub fn a_chars_nb() -> bool { "abc".chars().next_back() == Some('c') }
pub fn a_is_some_and() -> bool { Some(1).is_some_and(|x| x == 1) }
pub fn a_then() -> bool { true.then(|| 1) == Some(1) && false.then_some(1).is_none() }
pub fn a_xor() -> bool { Some(1).xor(None) == Some(1) && Some(1).zip(Some(2)) == Some((1, 2)) }
pub fn a_filter() -> bool { Some(1).filter(|x| *x == 2).is_none() && Some(1).or_else(|| Some(2)) == Some(1) }
pub fn a_mapor() -> bool { Some(1).map_or_else(|| 2, |x| x + 1) == 2 && None::<i32>.unwrap_or_default() == 0 }
pub fn a_take() -> bool { let mut o = Some(1); o.take() == Some(1) && o.is_none() && *o.get_or_insert_with(|| 3) == 3 && o.insert(4) == &4 }
pub fn a_opt_replace() -> bool { let mut o = Some(1); o.replace(2) == Some(1) && o == Some(2) }
pub fn a_transpose() -> bool { Some(Ok::<i32, ()>(1)).transpose() == Ok(Some(1)) }
pub fn a_flatten() -> bool { Some(Some(1)).flatten() == Some(1) }
pub fn a_ok_or() -> bool { Some(1).ok_or(2) == Ok(1) && None::<i32>.ok_or_else(|| 2) == Err(2) }
pub fn a_res() -> bool { Ok::<i32, i32>(1).and_then(|x| Err::<i32, i32>(x)).or_else(|e| Ok::<i32, ()>(e)) == Ok(1) }
pub fn a_res2() -> bool { Err::<i32, i32>(1).unwrap_or_else(|e| e + 1) == 2 && Err::<i32, i32>(1).map_or(3, |x| x) == 3 && Ok::<i32, i32>(1).is_ok_and(|x| x == 1) }
pub fn a_as_deref() -> bool { Some("a".to_string()).as_deref() == Some("a") }
pub fn a_opt_collect() -> bool { let v: Option<Vec<i32>> = [Some(1), None].into_iter().collect(); v.is_none() }
pub fn a_res_collect() -> bool { let v: Result<Vec<i32>, i32> = [Ok(1), Err(2)].into_iter().collect(); v == Err(2) }
pub fn a_from_fn() -> bool { let mut n = 0; std::iter::from_fn(|| { n += 1; if n < 3 { Some(n) } else { None } }).count() == 2 }
pub fn a_successors() -> bool { std::iter::successors(Some(1), |x| if *x < 3 { Some(x + 1) } else { None }).count() == 3 }
pub fn a_repeat() -> bool { std::iter::repeat('a').take(3).collect::<String>() == "aaa" }
pub fn a_repeat_n() -> bool { " ".repeat(3) == "   " }
pub fn a_hash() -> bool { let mut m = std::collections::HashMap::new(); m.insert("a", 1); m.get("a") == Some(&1) && m.get("b").is_none() }
pub fn a_btree() -> bool { let mut m = std::collections::BTreeMap::new(); m.insert("b", 1); m.insert("a", 2); m.keys().next() == Some(&"a") }
pub fn a_deque() -> bool { let mut q = std::collections::VecDeque::new(); q.push_back(1); q.push_back(2); q.pop_front() == Some(1) }
pub fn a_cow() -> bool { let c: std::borrow::Cow<str> = "a".into(); c.into_owned() == "a" }
pub fn a_box() -> bool { let b: Box<dyn Fn(i32) -> i32> = Box::new(|x| x + 1); b(1) == 2 }
pub fn a_fnptr() -> bool { fn g(x: i32) -> i32 { x + 1 } let t: [(i32, fn(i32) -> i32); 1] = [(1, g)]; t.iter().all(|(a, f)| f(*a) == 2) }
pub fn a_const_tbl() -> bool { const T: &[(&str, i32)] = &[("a", 1), ("b", 2)]; T.iter().find(|(k, _)| *k == "b").map(|x| x.1) == Some(2) }
pub fn a_match_str() -> bool { match "b" { "a" => false, "b" => true, _ => false } }
pub fn a_slice_pat() -> bool { let v = vec![1, 2, 3]; matches!(v.as_slice(), [1, .., 3]) && matches!(&v[..], [_, rest @ ..] if rest.len() == 2) }
pub fn a_strip() -> bool { "$ab".strip_prefix('$') == Some("ab") && "ab\r".strip_suffix('\r') == Some("ab") }
pub fn a_split_once() -> bool { "a=b=c".split_once('=') == Some(("a", "b=c")) && "a=b".split_once("==").is_none() }
pub fn a_split_arr() -> bool { "a,b;c".split([',', ';']).count() == 3 && "a,b;c".split(|c| c == ',' || c == ';').count() == 3 }
pub fn a_split_ws() -> bool { " a  b ".split_whitespace().count() == 2 }
pub fn a_parse() -> bool { "12".parse::<i32>() == Ok(12) && "x".parse::<u8>().is_err() }
pub fn a_parse_char() -> bool { "1".parse::<char>() == Ok('1') && "true".parse::<bool>() == Ok(true) }
pub fn a_char() -> bool { 'a'.is_ascii_alphabetic() && '1'.to_digit(10) == Some(1) && 'a'.to_ascii_uppercase() == 'A' && '1'.is_numeric() && ' '.is_whitespace() }
pub fn a_from_digit() -> bool { char::from_digit(3, 10) == Some('3') && char::from(65u8) == 'A' && 'A' as u32 == 65 }
pub fn a_case() -> bool { "Ab".eq_ignore_ascii_case("aB") && "Ab".to_lowercase() == "ab" }
pub fn a_cmp() -> bool { "a" < "b" && "b".cmp("a") == std::cmp::Ordering::Greater }
pub fn a_num() -> bool { 5i32.clamp(0, 3) == 3 && 5i32.pow(2) == 25 && 5i32.rem_euclid(3) == 2 && (-5i32).abs() == 5 && 5u8.checked_sub(6).is_none() && 5u8.saturating_sub(6) == 0 && 5i32.signum() == 1 && 4i32.min(3) == 3 }
pub fn a_num2() -> bool { u8::try_from(300).is_err() && i64::from(3i32) == 3 && 300i32 as u8 == 44 && 200u8.wrapping_add(100) == 44 && 6u8.leading_zeros() == 5 && 6u8.count_ones() == 2 && 5u8.is_power_of_two() == false }
pub fn a_range_contains() -> bool { (3..10).contains(&5) && !(3..=9).contains(&10) }
pub fn a_default() -> bool { let (a, b): (i32, String) = Default::default(); a == 0 && b.is_empty() }
pub fn a_get_range() -> bool { "abc".get(1..) == Some("bc") && "abc".get(..9).is_none() && "abc".split_at(1) == ("a", "bc") }
pub fn a_opt_iter() -> bool { Some(1).iter().chain([2].iter()).count() == 2 && Some(1).into_iter().count() == 1 }
pub fn a_extend_opt() -> bool { let mut v = vec![1]; v.extend(Some(2)); v.extend([3, 4].iter()); v.len() == 4 }
pub fn a_vec_cmp() -> bool { vec![1, 2] == vec![1, 2] && vec![1] != vec![2] && [1, 2] < [1, 3] }
pub fn a_let_else() -> bool { let Some(x) = Some(1) else { return false }; x == 1 }
pub fn a_labeled() -> bool { let mut n = 0; 'a: loop { loop { n += 1; if n == 3 { break 'a; } continue 'a; } } n == 3 }
pub fn a_trim_m() -> bool { "_ab".trim_start_matches(['_', ' ']) == "ab" && "xxa".trim_start_matches("x") == "a" && "ab1".trim_end_matches(char::is_numeric) == "ab" && "(a)".trim_matches(|c| c == '(' || c == ')') == "a" }
pub fn a_lines() -> bool { "a\r\nb\n".lines().count() == 2 && "a\nb".lines().rev().next() == Some("b") }
pub fn a_matches() -> bool { "a,b,c".matches(',').count() == 2 && "aXbX".match_indices('X').map(|x| x.0).last() == Some(3) }
pub fn a_enum_rev() -> bool { [5, 6].iter().enumerate().rev().next() == Some((1, &6)) }
pub fn a_zip() -> bool { [1, 2].iter().zip("ab".chars()).all(|(n, c)| (*n == 1) == (c == 'a')) }
pub fn a_peek() -> bool { let mut i = [1, 2].iter().peekable(); let mut n = 0; while let Some(x) = i.next() { if i.peek().is_none() { n = *x; } } n == 2 }
pub fn a_next_if() -> bool { let mut i = [1, 2].iter().peekable(); i.next_if(|x| **x == 1).is_some() && i.next_if_eq(&&1).is_none() }
pub fn a_last_mut() -> bool { let mut v = vec![1, 2]; if let Some(x) = v.last_mut() { *x = 5; } for x in v.iter_mut() { *x += 1; } v == [2, 6] }
pub fn a_mem() -> bool { let mut a = vec![1]; let b = std::mem::take(&mut a); a.is_empty() && b.len() == 1 && std::mem::replace(&mut a, vec![3]).is_empty() }
pub fn a_fmt_width() -> bool { format!("{:>w$}{:<3}|{:^3}", 1, 2, 3, w = 2) == " 12  | 3 " && format!("{:?}", "a") == "\"a\"" }
pub fn a_fold() -> bool { (1..=3).fold(String::new(), |a, b| if a.is_empty() { b.to_string() } else { a + "," + &b.to_string() }) == "1,2,3" }
pub fn a_scan() -> bool { [1, 2].iter().scan(0, |a, x| { *a += x; Some(*a) }).last() == Some(3) }
pub fn a_sum() -> bool { [1, 2].iter().sum::<i32>() == 3 && [2, 3].iter().product::<i32>() == 6 }
pub fn a_array_map() -> bool { [1, 2].map(|x| x + 1) == [2, 3] }
pub fn a_concat_vec() -> bool { [vec![1], vec![2]].concat() == [1, 2] }
pub fn a_binsearch() -> bool { [1, 3, 5].binary_search(&3) == Ok(1) && [1, 3, 5].partition_point(|x| *x < 5) == 2 }
pub fn a_starts() -> bool { [1, 2].starts_with(&[1]) && "ab".starts_with(|c: char| c == 'a') && "ab".ends_with(&['b'][..]) }
pub fn a_sort_by() -> bool { let mut v = vec![(1, 'b'), (1, 'a'), (0, 'c')]; v.sort_by_key(|x| x.0); v == [(0, 'c'), (1, 'b'), (1, 'a')] }
pub fn a_skip_while() -> bool { [1, 2, 3].iter().skip_while(|x| **x < 2).count() == 2 && [1, 2, 3].iter().take_while(|x| **x < 2).count() == 1 && [1, 2].iter().map_while(|x| (*x < 2).then_some(x)).count() == 1 }
pub fn a_u8() -> bool { let b = "a,b".as_bytes(); b.iter().position(|x| *x == b',') == Some(1) && b.len() == 3 && b.first() == Some(&b'a') }
pub fn a_trait_obj() -> bool { use std::fmt::Display; let v: Vec<Box<dyn Display>> = vec![Box::new(1), Box::new("a")]; v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") == "1,a" }
pub fn a_impl_fn() -> bool { fn g(f: impl Fn(i32) -> i32) -> i32 { f(1) } g(|x| x + 1) == 2 }
pub fn a_rec() -> bool { fn g(n: i32) -> i32 { if n == 0 { 0 } else { 1 + g(n - 1) } } g(4) == 4 }
pub fn a_shadow() -> bool { let v: Vec<_> = "1:2:3".split(':').filter_map(|x| x.parse::<i32>().ok()).collect(); let [a, b, c] = v[..] else { return false }; a + b + c == 6 }
pub fn a_try_into() -> bool { let v = vec![1, 2]; let a: Result<[i32; 2], _> = v.try_into(); a == Ok([1, 2]) }
pub fn a_once() -> bool { std::iter::once(1).chain(std::iter::empty()).cycle().take(3).count() == 3 }
pub fn a_is_sorted() -> bool { [1, 2].contains(&2) && [1, 2].iter().any(|x| *x == 2) && [1, 2].first() == Some(&1) }
pub fn a_path() -> bool { use std::path::Path; let p = Path::new("a/b.c.d"); p.file_name().unwrap().to_str() == Some("b.c.d") && p.extension().unwrap().to_str() == Some("d") && p.file_stem().unwrap().to_str() == Some("b.c") }
pub fn a_path2() -> bool { use std::path::Path; Path::new("").file_name().is_none() && Path::new("..").file_name().is_none() && Path::new("a/").file_name().unwrap().to_str() == Some("a") && Path::new(".b").extension().is_none() && Path::new("b.").extension().unwrap().to_str() == Some("") && Path::new("/").file_name().is_none() }
