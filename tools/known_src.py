KNOWN = []
# property of a fix, by the words of its message (first match)
# which property a fix belongs to: by message, else by the file it touches
PROP = [
 (r'through its member appends', 'P24'), (r'in one pass instead of one string', 'P27'), (r'without one frame of the stack', 'P04'), (r'search for constructors outside', 'P27'), (r'children of a node are only followed', 'P27'), (r'destructors defined outside|templates of constructors and destructors outside|specialized or templated classes are parsed outside', 'P25'), (r'thread local and volatile|volatile may qualify', 'P25'),
 (r'keeps its entries apart|export body among', 'P21'), (r'function call and comma|postfix operators outside', 'P06'),
 (r'parentheses of a define|comparisons within|nested templates are read|last default of template|directives in an enum|initializer of a variable ends|export body can|decrement operator|to members keeps|read as one token|sign and address|declared deleted', 'P01'),
 (r'by its own files on POSIX|FORCEINLINE_DEBUGGABLE', 'P18'), (r'left of their field|keep their sign before', 'P13'),
 (r'in the C library too', 'P18'),
 (r'of the C library', 'P22'),
 (r'checksum of a keyword|forward declared class', 'P17'),
 (r'cells?\b|rows differ|only has a header|columns are only|columns can be|children of a node|digits a number has', 'P14'),
 (r'\bfiles?\b|memory streams?\b|a builder\b', 'P15'),
 (r'real numbers of any|printed with the exponent|with 0X', 'P13'),
 (r'content differs is not equal|not equal to code that has more|compared entry by entry|every member of a declaration is compared|validating a body|an empty body can be iterated|gotten by their index|getting an entry past|removing a specifier|duplicate of a body|serializing an enum does not write|module flags of any value', 'P21'),
 (r'nodes of every kind can be described|describing an entry|return type is refused|parameters that are null|invalid specifiers are refused|leave the (entries|parameters) as|leaves the (entries|parameters) as|the invalid code and parameters of defines|external linkage can be made empty|arguments of the wrong kind|whose parameters are not parameters|can not be templates are|unknown kind are|typedef without a name', 'P07'),
 (r'macro|define directive|registered as attributes|enum class keeps', 'P20'),
 (r'unnamed declaration|stray end of statement|in front of a type definition|keep the attributes|typename keyword|reference qualifiers|a member is a constructor|specialized or nested type|operator cast keeps its qualifier|structured binding', 'P01'),
 (r'generator of the specifiers|members of CodeClass', 'P06'), (r'specifiers that are absent', 'P21'), (r'align_forward_by_value', 'P23'),
 (r'POSIX', 'P15'), (r'tokens record|record their own line|tokens include|lexer works', 'P03'), (r'parent, as|same parent|chain|share the memory|interned names', 'P05'),
 (r'hash table', 'P09'), (r'fallback allocator', 'P10'), (r'string arena|same checksum are not taken|find their entries', 'P11'),
 (r'every context knows|released completely|resetting the base', 'P16'), (r'reading a number|smallest integer|exponent of any', 'P13'), (r'formatted text of any length', 'P12'),
 (r'token format|untyped|text macros', 'P19'), (r'after a reset', 'P16'), (r'duplicate|appending a list of parameters', 'P21'),
 (r'made from an array|def_comment|using definition|typedef ends|adding an interface|sign operator|postfix operators|member operators|bodies of classes|underlying type|#if and #ifndef|friend declaration of a class', 'P06'),
 (r'overran|slicing|null|endless|loops forever|foreign|only read tokens|never used as formats|past literals|instead of dereferencing|empty constructor|fatal', 'P04'),
 (r'white space', 'P02'),
]
FILES = [(r'interface\.untyped', 'P19'), (r'interface\.upfront', 'P06'), (r'containers\.hpp', 'P08'), (r'memory\.(c|h)pp', 'P10'), (r'strings\.(c|h)pp|string_ops', 'P12'), (r'printing', 'P13'), (r'filesystem|scanner|builder', 'P15'), (r'parsing\.(c|h)pp', 'P14'), (r'gen_c_library', 'P22')]
