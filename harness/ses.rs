//! Sessions: running lines the way the program does.
use super::sym::*;
use super::util::*;
use crate::commands::CommandExecutor;
use crate::input_history::InputHistory;
use crate::saved_data::SavedData;
use crate::syntax_tree::SyntaxTree;
use crate::token::{ParsedInput, Tokenizer};
use crate::variable::VariableStore;
use crate::Args;

/// One bcalc session.
pub struct Ses {
    pub args: Args,
    pub tk: Tokenizer,
    pub ce: CommandExecutor,
    pub db: Option<SavedData>,
    pub inputs: InputHistory,
    pub vars: VariableStore,
}
impl Ses {
    pub fn new(args: Args) -> Ses {
        let db = if args.no_db {
            None
        } else {
            match SavedData::open() {
                Ok(d) => d,
                Err(e) => {
                    check(false, "the database cannot be opened");
                    None
                }
            }
        };
        Ses { args, tk: Tokenizer::new(), ce: CommandExecutor::new(), inputs: InputHistory::new(db.is_some()), db, vars: VariableStore::new() }
    }
    /// Submits a line the way the interactive loop does.
    pub fn submit(&mut self, s: &str) -> Out {
        for (i, c) in s.bytes().enumerate() {
            self.inputs.insert_char_into_current_line(i, c as char);
        }
        self.enter(s)
    }
    pub fn enter(&mut self, s: &str) -> Out {
        conv(crate::calculate(
            s,
            &mut self.args,
            &self.tk,
            &mut self.ce,
            self.db.as_mut(),
            Some(&mut self.inputs),
            Some(&mut self.vars),
        ))
    }
    /// Evaluates a line that is no command without printing the result.
    pub fn eval(&mut self, s: &str) -> Out {
        let tokens = match self.tk.tokenize(s, self.args.radix) {
            Ok(ParsedInput::Tokens(t)) => t,
            Ok(ParsedInput::Command(_)) => return Out::Runtime("command".into()),
            Err(e) => return conv(Err(e.into())),
        };
        let st = match SyntaxTree::new(tokens.into()) {
            Ok(s) => s,
            Err(e) => return conv(Err(e.into())),
        };
        conv(st.execute(None, Some(&mut self.vars), None, &self.args).map(|_| String::new()))
    }
    /// The value of an expression, with the database but without recording it.
    pub fn value_db(&mut self, s: &str) -> Option<num::BigRational> {
        let tokens = match self.tk.tokenize(s, self.args.radix) {
            Ok(ParsedInput::Tokens(t)) => t,
            _ => return None,
        };
        let st = SyntaxTree::new(tokens.into()).ok()?;
        st.execute(None, Some(&mut self.vars), self.db.as_mut(), &self.args).ok()
    }
    /// Evaluates a line without recording it in the input history (and without the database).
    pub fn line(&mut self, s: &str) -> Out {
        conv(crate::calculate(s, &mut self.args, &self.tk, &mut self.ce, None, None, Some(&mut self.vars)))
    }
}
/// What `bcalc --input` does with a line.
pub fn batch(s: &str, a: &mut Args) -> Out {
    let tk = Tokenizer::new();
    let mut ce = CommandExecutor::new();
    conv(crate::calculate(s, a, &tk, &mut ce, None, None, None))
}
