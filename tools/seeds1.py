import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seedlib import seed
L = 'base/components/'
ONLY = sys.argv[1:]
def S(id, *a, **k):
    if not ONLY or id in ONLY: seed(id, *a, **k)
S('p01-enum-fwd-attr', 'P01', [(L+'code_serialization.cpp', '''	strbuilder_append_str( result, txt("enum class ") );

	if ( self->Attributes )
		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );

''', '''	strbuilder_append_str( result, txt("enum class ") );

	if ( self->Attributes && ! self->UnderlyingType )
		strbuilder_append_fmt( result, "%SB ", attributes_to_strbuilder(self->Attributes) );

''')], '''int main() { Context c = {}; init(&c);
 std::string t = squeeze(text((Code)parse_global_body(txt("enum class __attribute__((aligned(8))) E : int;\\n"))));
 return want(t.find("aligned(8)") != std::string::npos, "the attribute of the forward is kept"); }''',
 needs='a forward declaration of an enum class that has both an attribute and an underlying type', breaks='the attribute is dropped from the serialized forward')
S('p02-crlf-glue', 'P02', [(L+'parser.cpp', '''			if ( pos > last_cut )
				strbuilder_append_c_str_len( & content,  cut_ptr, cut_length );

			// Replace with a space
			if ( * strbuilder_back( content ) != ' ' )
				strbuilder_append_char( & content,  ' ' );

			scanner += 2;''', '''			if ( pos > last_cut )
				strbuilder_append_c_str_len( & content,  cut_ptr, cut_length );

			scanner += 2;''')], '''int main() { Context c = {}; init(&c);
 std::string a = text((Code)parse_global_body(txt("unsigned long\\r\\nint x = 2;\\n")));
 std::string b = text((Code)parse_global_body(txt("unsigned long int x = 2;\\n")));
 return want(a == b, "a line break inside a type is the same as a space"); }''',
 needs='a multi-token type or expression broken over lines with CRLF line ends', breaks='re-laying out the source changes the serialized tokens')
S('p03-comment-slash', 'P03', [(L+'lexer.cpp', '''						c.token.Text.Len = 2;
						c.token.Flags    = TF_Null;
						move_forward();

						bool star ''', '''						c.token.Text.Len = 1;
						c.token.Flags    = TF_Null;

						bool star ''')], '''int main() { Context c = {}; init(&c);
 TokArray t = lex(txt("int a; /*/ b */ int c;"));
 for (int i = 0; i < array_num(t.Arr); i++) if (t.Arr[i].Type == Tok_Comment) return want(t.Arr[i].Text.Len == 8, "the comment ends at its own end");
 return want(false, "a comment"); }''',
 needs='a block comment whose text starts with a slash', breaks='the comment token ends right after its opening, the rest of the comment becomes code')
S('p03-tab-column', 'P03', [(L+'lexer.cpp', '''	else {
		++ ctx->column;
	}''', '''	else if ( * ctx->scanner != '\\v' && * ctx->scanner != '\\f' ) {
		++ ctx->column;
	}''')], '''int main() { Context c = {}; init(&c);
 TokArray t = lex(txt("int\\f a;"));
 return want(t.Arr[1].Column == 6, "the column counts every character of the line"); }''',
 needs='a form feed or vertical tab before a token on its line', breaks='the recorded column is not that of the token')
S('p05-protected-twice', 'P05', [(L+'inlines.hpp', '''	if ( other->Parent != nullptr )
		other = code_duplicate(other);

	other->Parent = self;

	if ( self->Front == nullptr )''', '''	if ( other->Parent != nullptr && other->Type != CT_Access_Protected )
		other = code_duplicate(other);

	other->Parent = self;

	if ( self->Front == nullptr )''')], '''int main() { Context c = {}; init(&c);
 CodeClass k = parse_class(txt("class A { protected: int a; protected: int b; };\\n"));
 int n = 0; for (Code e = k->Body->Front; e && n < 50; e = e->Next) n++;
 return want(n == k->Body->NumEntries, "the chain has as many entries as recorded"); }''',
 needs='two protected labels in one class body', breaks='the same node is linked twice, the sibling chain loops')
