// Reads one command per line (fields separated by tabs, %xx escapes), prints one result line each.
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "iwyu_include_picker.h"
#include "iwyu_path_util.h"
#include "iwyu_regex.h"
#include "iwyu_string_util.h"
#include "iwyu_verrs.h"
using namespace include_what_you_use;
using std::string;
using std::vector;

static string unesc(const string& s) {
  string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size()) {
      r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16);
      i += 2;
    } else {
      r += s[i];
    }
  }
  return r;
}
static string esc(const string& s) {
  string r;
  char b[4];
  for (unsigned char c : s) {
    if (c <= 32 || c == '%' || c >= 127) {
      snprintf(b, sizeof b, "%%%02X", c);
      r += b;
    } else {
      r += c;
    }
  }
  return r.empty() ? "%" : r;
}
static string show(const vector<string>& v) {
  string r = std::to_string(v.size());
  for (auto& x : v) r += "\t" + esc(x);
  return r;
}
static string show(const vector<MappedInclude>& v) {
  string r = std::to_string(v.size());
  for (auto& x : v) r += "\t" + esc(x.quoted_include) + "\t" + esc(x.path);
  return r;
}

int main() {
  std::unique_ptr<IncludePicker> p;
  string line;
  while (std::getline(std::cin, line)) {
    vector<string> a;
    size_t pos = 0;
    while (true) {
      size_t t = line.find('\t', pos);
      string f = line.substr(pos, t == string::npos ? t : t - pos);
      a.push_back(f == "%" ? "" : unesc(f));
      if (t == string::npos) break;
      pos = t + 1;
    }
    const string& c = a[0];
    string out = "ok";
    if (c == "new") {
      p.reset(new IncludePicker(a[1] == "ecma" ? RegexDialect::ECMAScript : RegexDialect::LLVM,
                                a[2] == "glibc" ? CStdLib::Glibc : CStdLib::None,
                                a[3] == "libstdc++" ? CXXStdLib::Libstdcxx : a[3] == "libc++" ? CXXStdLib::Libcxx : CXXStdLib::None));
    } else if (c == "search") {
      vector<HeaderSearchPath> v;
      for (size_t i = 1; i + 1 < a.size(); i += 2)
        v.push_back(HeaderSearchPath(a[i], a[i + 1] == "sys" ? HeaderSearchPath::kSystemPath : HeaderSearchPath::kUserPath));
      SetHeaderSearchPaths(v);
    } else if (c == "file") { p->AddMappingsFromFile(a[1]);
    } else if (c == "map") { p->AddMapping(a[1], a.size() > 3 ? MappedInclude(a[2], a[3]) : MappedInclude(a[2]));
    } else if (c == "direct") { p->AddDirectInclude(a[1], a[2], a[3]);
    } else if (c == "privinc") { p->MarkIncludeAsPrivate(a[1]);
    } else if (c == "privpath") { p->MarkPathAsPrivate(a[1]);
    } else if (c == "friend") { p->AddFriendRegex(a[1], a[2]);
    } else if (c == "fin") { p->FinalizeAddedIncludes();
    } else if (c == "sym") { out = show(p->GetCandidateHeadersForSymbol(a[1]));
    } else if (c == "symfrom") { out = show(p->GetCandidateHeadersForSymbolUsedFrom(a[1], a[2]));
    } else if (c == "cand") { out = show(p->GetCandidateHeadersForFilepath(a[1], a[2]));
    } else if (c == "candfrom") { out = show(p->GetCandidateHeadersForFilepathIncludedFrom(a[1], a[2]));
    } else if (c == "pub") { out = show(p->GetMappedPublicHeaders(a[1], a[2], a[3]));
    } else if (c == "hasmap") { out = p->HasMapping(a[1], a[2]) ? "1" : "0";
    } else if (c == "conv") { out = esc(ConvertToQuotedInclude(a[1], a[2]));
    } else if (c == "isq") { out = IsQuotedInclude(a[1]) ? "1" : "0";
    } else if (c == "addq") { out = esc(AddQuotes(a[1], a[2] == "1"));
    } else if (c == "header") { out = IsHeaderFile(a[1]) ? "1" : "0";
    } else if (c == "base") { out = esc(Basename(a[1]));
    } else if (c == "canon") { out = esc(GetCanonicalName(a[1]));
    } else if (c == "norm") { out = esc(NormalizeFilePath(a[1]));
    } else if (c == "normdir") { out = esc(NormalizeDirPath(a[1]));
    } else if (c == "parent") { out = esc(GetParentPath(a[1]));
    } else if (c == "abs") { out = esc(MakeAbsolutePath(a[1]));
    } else if (c == "rematch") { out = RegexMatch(a[1] == "ecma" ? RegexDialect::ECMAScript : RegexDialect::LLVM, a[2], a[3]) ? "1" : "0";
    } else if (c == "resub") { out = esc(RegexReplace(a[1] == "ecma" ? RegexDialect::ECMAScript : RegexDialect::LLVM, a[2], a[3], a[4]));
    } else if (c == "starts") { out = StartsWith(a[1], a[2]) ? "1" : "0";
    } else if (c == "ends") { out = EndsWith(a[1], a[2]) ? "1" : "0";
    } else if (c == "stripl") { string s = a[1]; bool b = StripLeft(&s, a[2]); out = (b ? "1 " : "0 ") + esc(s);
    } else if (c == "stripr") { string s = a[1]; bool b = StripRight(&s, a[2]); out = (b ? "1 " : "0 ") + esc(s);
    } else if (c == "past") { string s = a[1]; bool b = StripPast(&s, a[2]); out = (b ? "1 " : "0 ") + esc(s);
    } else if (c == "drop") { string s = a[1]; bool b = DropFrom(&s, a[2]); out = (b ? "1 " : "0 ") + esc(s);
    } else if (c == "ell") { out = esc(Ellipsize(a[1], strtoul(a[2].c_str(), nullptr, 10)));
    } else if (c == "wsl") { string s = a[1]; StripWhiteSpaceLeft(&s); out = esc(s);
    } else if (c == "wsr") { string s = a[1]; StripWhiteSpaceRight(&s); out = esc(s);
    } else if (c == "ws") { string s = a[1]; StripWhiteSpace(&s); out = esc(s);
    } else if (c == "repl") { string s = a[1]; ReplaceAll(&s, a[2], a[3]); out = esc(s);
    } else if (c == "split") { out = show(Split(a[1], a[2], strtoul(a[3].c_str(), nullptr, 10)));
    } else if (c == "splitws") { out = show(SplitOnWhiteSpace(a[1], strtoul(a[2].c_str(), nullptr, 10)));
    } else if (c == "splitwsq") { out = show(SplitOnWhiteSpacePreservingQuotes(a[1], strtoul(a[2].c_str(), nullptr, 10)));
    } else { out = "unknown command"; }
    puts(out.c_str());
    fflush(stdout);
  }
}
