#include "marco/Parser/BaseModelica/StateMachine.h"
using namespace marco;
using namespace marco::parser::bmodelica;
Token verif_scan(lexer::Lexer<StateMachine> &l) { return l.scan(); }
