// lib/VariableFilter/VariableFilter.cpp is written for a newer clang: give two of its classes the newer constructors.
#pragma once
#include "marco/VariableFilter/VariableFilter.h"
#include "marco/VariableFilter/Parser.h"
#include "marco/VariableFilter/Token.h"
#include "clang/Basic/Diagnostic.h"
#include "clang/Basic/LangOptions.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
namespace clang {
struct NewDiagnosticsEngine : DiagnosticsEngine {
  NewDiagnosticsEngine(llvm::IntrusiveRefCntPtr<DiagnosticIDs> i, DiagnosticOptions &o, DiagnosticConsumer *c) : DiagnosticsEngine(i, new DiagnosticOptions(o), c) {}
};
struct NewTextDiagnosticPrinter : TextDiagnosticPrinter {
  NewTextDiagnosticPrinter(llvm::raw_ostream &os, DiagnosticOptions &o) : TextDiagnosticPrinter(os, new DiagnosticOptions(o)) {}
};
}
#define DiagnosticsEngine NewDiagnosticsEngine
#define TextDiagnosticPrinter NewTextDiagnosticPrinter
