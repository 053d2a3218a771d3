#include "marco/VariableFilter/LexerStateMachine.h"
using namespace marco;
using namespace marco::vf;
Token verif_scan(lexer::Lexer<LexerStateMachine> &l) { return l.scan(); }
