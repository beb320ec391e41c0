exec(open(__file__.replace('seeds8', 'seeds7')).read().split("\nS('")[0])

S('z01-chain-depth','P16',[(CB,'''    /// Current node.
    current: Id,
}''','''    /// Current node.
    current: Id,
    /// Depth of the current node.
    depth: u8,
}'''),(CB,'''            root,
            current: root,
''','''            root,
            current: root,
            depth: 0,
'''),(CB,'''            .create_insert(data, InsertAs::LastChildOf(self.current));
        self.current = new;
''','''            .create_insert(data, InsertAs::LastChildOf(self.current));
        self.current = new;
        self.depth = self.depth.wrapping_add(1);
'''),(CB,'''            .parent_id()?;
        self.current = parent;
''','''            .parent_id()?;
        // Never leave the tree of the root.
        if self.depth == 0 && self.current == self.root {
            return None;
        }
        self.depth = self.depth.wrapping_sub(1);
        self.current = if self.depth == 0 { self.root } else { parent };
'''),(CB,'''            .expect("[precondition] the current node should not be the root");
        self.current = parent;
''','''            .expect("[precondition] the current node should not be the root");
        self.current = parent;
        self.depth = self.depth.wrapping_sub(1);
''')],
'a chain builder at depth 257, and try_parent() there','the builder jumps to the root','''
fn main() {
    let mut f: F<usize> = F::new();
    let mut b = ChainTreeBuilder::new(&mut f, 0);
    for i in 1..=257 { b.child(i); }
    b.try_parent().unwrap();
    let c = b.current_id();
    assert_eq!(f.data(c), Some(&256));
}''')
S('z02-print-error','P17',[(DP,'''                write!(writer, "{}", node_data)?;
            }
            assert!(traverser.next(hierarchy).is_none());

            Ok(())
        }

        let mut writer = IndentWriter::new(f);
        let hierarchy = &self.node.forest().hierarchy;
        let data = &self.node.forest().data;
        let id = self.node.id().to_internal();

        inner(&mut writer, hierarchy, data, id)
    }
}

impl<'a, Id: NodeId, T: fmt::Debug>''','''                if write!(writer, "{}", node_data).is_err() {
                    return Ok(());
                }
            }
            assert!(traverser.next(hierarchy).is_none());

            Ok(())
        }

        let mut writer = IndentWriter::new(f);
        let hierarchy = &self.node.forest().hierarchy;
        let data = &self.node.forest().data;
        let id = self.node.id().to_internal();

        inner(&mut writer, hierarchy, data, id)
    }
}

impl<'a, Id: NodeId, T: fmt::Debug>''')],
'a sink that fails (or node data whose Display fails) below the root','the print stops early and reports success','''
use std::fmt::Write;
struct Lim(String, usize);
impl Write for Lim {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.1 { return Err(std::fmt::Error); }
        self.0.push_str(s); Ok(())
    }
}
fn main() {
    let mut f: F<&'static str> = F::new();
    let r = f.create_root("root");
    f.create_insert("a long child name", InsertAs::LastChildOf(r));
    let mut w = Lim(String::new(), 12);
    assert!(write!(w, "{}", f.debug_print(r)).is_err());
}''')
S('z03-nest-deep','P16',[(NB,'''        let old_root = mem::replace(&mut self.root, new_root);
''','''        let old_root = mem::replace(&mut self.root, new_root);
        // Nodes below the root are known to have a parent.
        let nested = self.forest.ancestors(new_root).take(128).count() < 128;
''' ),(NB,'''        self.current = Some(new_root);
        self.root = old_root;''','''        self.current = if nested { Some(new_root) } else { None };
        self.root = old_root;''')],
'nested builders 128 levels deep, and a child added after a nested tree there','later children come first','''
fn go(b: &mut NestTreeBuilder<'_, NodeIdUsize, usize>, n: usize) {
    if n == 0 { return; }
    b.create_tree(n, |b| go(b, n - 1));
    b.add_child(1000 + n);
}
fn main() {
    let mut f: F<usize> = F::new();
    let mut b = NestTreeBuilder::new(&mut f, 0);
    go(&mut b, 140);
    let mut n = b.root();
    for i in (1..=140).rev() {
        let k = kids(&f, n);
        assert_eq!(k.iter().map(|&k| *f.data(k).unwrap()).collect::<Vec<_>>(), [i, 1000 + i]);
        n = k[0];
    }
}''')
S('z15-print-crlf','P17',[(DP,'''                self.fmt.write_str(content)?;

                self.line_state''','''                match content.strip_suffix("\\r\\n") {
                    Some(line) => {
                        self.fmt.write_str(line)?;
                        self.fmt.write_char('\\n')?;
                    }
                    None => self.fmt.write_str(content)?,
                }

                self.line_state''')],
'node data with a CR LF line break','the carriage return is lost','''
fn main() {
    let mut f: F<&'static str> = F::new();
    let r = f.create_root("root\\r\\nline");
    assert_eq!(f.debug_print(r).to_string(), "root\\r\\nline");
}''')
S('z16-print-separators','P17',[(DP,'''            let (line_end, ends_with_newline) = match s.find('\\n') {
                Some(pos) => (pos + 1, true),''','''            let (line_end, ends_with_newline) = match s.find(|c| matches!(c, '\\n' | '\\u{85}' | '\\u{2028}' | '\\u{2029}')) {
                Some(pos) => (pos + s[pos..].chars().next().map_or(1, char::len_utf8), true),''')],
'node data with a Unicode line separator that is not LF','the indent is written in the middle of a line','''
fn main() {
    let mut f: F<&'static str> = F::new();
    let r = f.create_root("root");
    f.create_insert("a\\u{2028}b", InsertAs::LastChildOf(r));
    assert_eq!(f.debug_print(r).to_string(), "root\\n`-- a\\u{2028}b");
}''')
