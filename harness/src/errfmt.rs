//! What the message for an unexpected token has to show, and a reading of
//! the message that is actually displayed.

pub fn check(source: &str, start: usize, end: usize) -> Result<(), String> {
    let shown = format!("{}", ratel::error::ParseError::UnexpectedToken { source: source.to_string(), start, end });
    let line = source[..start].matches('\n').count();
    let line_start = source[..start].rfind('\n').map_or(0, |i| i + 1);
    let column = source[line_start..start].chars().count();
    let mut lines: Vec<&str> = source.split('\n').collect();
    let count = lines.len();
    for l in lines.iter_mut().take(count - 1) {
        *l = l.strip_suffix('\r').unwrap_or(l);
    }
    let token = &source[start..end];

    let mut it = shown.split('\n');
    let head = it.next().unwrap_or("");
    let want = format!("Unexpected token at {}:{}", line + 1, column + 1);
    if head != want {
        return Err(format!("message starts with {:?}, expected {:?}", head, want));
    }
    if it.next() != Some("") {
        return Err("no blank line behind the position".to_string());
    }
    let mut numbers = Vec::new();
    let mut marked = false;
    // Column of the first character of the text, in the displayed lines
    let mut margin: Option<usize> = None;
    let rest: Vec<&str> = it.collect();
    let mut k = 0;
    while k < rest.len() {
        let l = rest[k];
        k += 1;
        if l.is_empty() && k == rest.len() {
            break;
        }
        let bar = match l.find(" | ") {
            Some(b) => b,
            None => return Err(format!("displayed line {:?} is not numbered", l)),
        };
        let (num, text) = (&l[..bar], &l[bar + 3..]);
        match margin {
            None => margin = Some(bar),
            Some(m) if m != bar => return Err(format!("displayed line {:?} is not aligned with the others", l)),
            _ => {}
        }
        let current = num.starts_with('>');
        let n: usize = match num.trim_start_matches('>').trim().parse() {
            Ok(n) => n,
            Err(_) => return Err(format!("displayed line {:?} is not numbered", l)),
        };
        if n == 0 || n > lines.len() || lines[n - 1] != text {
            return Err(format!("line {} displayed as {:?}, it is {:?}", n, text, lines.get(n.wrapping_sub(1))));
        }
        if current != (n == line + 1) {
            return Err(format!("line {} {}marked as the line of the error, which is {}", n, if current { "" } else { "not " }, line + 1));
        }
        numbers.push(n);
        if current {
            let m = rest.get(k).copied().unwrap_or("");
            k += 1;
            marked = true;
            let (pre, marks) = match m.find(" | ") {
                Some(b) => (&m[..b], &m[b + 3..]),
                None => return Err(format!("no marks below the line, but {:?}", m)),
            };
            if pre.len() != bar || !pre.trim().is_empty() {
                return Err(format!("marks {:?} are not aligned with the line", m));
            }
            let blanks = marks.chars().take_while(|c| *c == ' ').count();
            let carets = marks.chars().skip(blanks).take_while(|c| *c == '^').count();
            if blanks + carets != marks.chars().count() || blanks != column {
                return Err(format!("marks {:?} do not start at column {}", marks, column + 1));
            }
            let own = token.split('\n').next().unwrap().chars().count();
            if (token.contains('\n') && carets < own) || (!token.contains('\n') && carets != own) {
                return Err(format!("{} marks for {:?}", carets, token));
            }
        }
    }
    if !marked {
        return Err("the line of the error is not displayed".to_string());
    }
    // A final line break does not start another line worth displaying
    let last = if source.ends_with('\n') { lines.len() - 1 } else { lines.len() };
    let from = line.saturating_sub(2);
    let to = (line + 3).min(last);
    let want: Vec<usize> = (from..to).map(|l| l + 1).collect();
    if numbers != want {
        return Err(format!("lines {:?} displayed, expected {:?}", numbers, want));
    }
    Ok(())
}
