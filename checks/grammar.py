"""What every rule of the grammar builds: production => tree ($n = value of the n-th symbol; defaults of omitted parts are
those of the constructors; each(list, f) = one node per element; decls/ioport = declarations by the signal types)."""
RULES = r'''
source_text : description => Source("", $1)
description : definitions => Description(definitions=$1)
definitions : definitions definition => (*$1, $2)
definitions : definition => ($1,)
definition : moduledef => $1
definition : pragma => $1
pragma : LPAREN TIMES ID EQUALS expression TIMES RPAREN => Pragma(PragmaEntry($3, $5))
pragma : LPAREN TIMES ID TIMES RPAREN => Pragma(PragmaEntry($3))
moduledef : MODULE modulename paramlist portlist items ENDMODULE => ModuleDef(name=$2, paramlist=$3, portlist=$4, items=$5, default_nettype=nettype)
modulename : ID => $1
modulename : SENS_OR => $1
paramlist : DELAY LPAREN params RPAREN => Paramlist(params=$3)
paramlist : empty => Paramlist(params=())
params : params_begin param_end => (*$1, $2)
params_begin : params_begin param => (*$1, $2)
params_begin : param => ($1,)
params : param_end => ($1,)
param : PARAMETER param_substitution_list COMMA => Decl(each($2, lambda n, v: Parameter(n, v)))
param : PARAMETER SIGNED param_substitution_list COMMA => Decl(each($3, lambda n, v: Parameter(n, v, signed=True)))
param : PARAMETER width param_substitution_list COMMA => Decl(each($3, lambda n, v: Parameter(n, v, $2)))
param : PARAMETER SIGNED width param_substitution_list COMMA => Decl(each($4, lambda n, v: Parameter(n, v, $3, signed=True)))
param : PARAMETER INTEGER param_substitution_list COMMA => Decl(each($3, lambda n, v: Parameter(n, v)))
param_end : PARAMETER param_substitution_list => Decl(each($2, lambda n, v: Parameter(n, v)))
param_end : PARAMETER SIGNED param_substitution_list => Decl(each($3, lambda n, v: Parameter(n, v, signed=True)))
param_end : PARAMETER width param_substitution_list => Decl(each($3, lambda n, v: Parameter(n, v, $2)))
param_end : PARAMETER SIGNED width param_substitution_list => Decl(each($4, lambda n, v: Parameter(n, v, $3, signed=True)))
param_end : PARAMETER INTEGER param_substitution_list => Decl(each($3, lambda n, v: Parameter(n, v)))
portlist : LPAREN ports RPAREN SEMICOLON => Portlist(ports=$2)
portlist : LPAREN ioports RPAREN SEMICOLON => Portlist(ports=$2)
portlist : LPAREN RPAREN SEMICOLON => Portlist(ports=())
portlist : SEMICOLON => Portlist(ports=())
ports : ports COMMA portname => (*$1, Port($3))
ports : portname => (Port($1),)
portname : ID => $1
sigtypes : sigtypes sigtype => (*$1, $2)
sigtypes : sigtype => ($1,)
sigtype : INPUT => $1
sigtype : OUTPUT => $1
sigtype : INOUT => $1
sigtype : TRI => $1
sigtype : REG => $1
sigtype : LOGIC => $1
sigtype : WIRE => $1
sigtype : SIGNED => $1
sigtype : SUPPLY0 => $1
sigtype : SUPPLY1 => $1
ioports : ioports COMMA ioport => IOPORTS
ioports : ioport_head => ($1,)
ioport : sigtypes portname => ioport($1, $2)
ioport : sigtypes width portname => ioport($1, $3, width=$2)
ioport : sigtypes width portname dimensions => ioport($1, $3, width=$2, dimensions=$4)
ioport_head : sigtypes portname => ioport($1, $2)
ioport_head : sigtypes width portname => ioport($1, $3, width=$2)
ioport_head : sigtypes width portname dimensions => ioport($1, $3, width=$2, dimensions=$4)
ioport : portname => $1
width : LBRACKET expression COLON expression RBRACKET => Width($2, $4)
length : LBRACKET expression COLON expression RBRACKET => Length($2, $4)
dimensions : dimensions length => Dimensions((*$1.lengths, $2))
dimensions : length => Dimensions(($1,))
items : items item => (*$1, $2)
items : item => ($1,)
items : empty => ()
item : standard_item => $1
item : generate => $1
standard_item : decl => $1
standard_item : integerdecl => $1
standard_item : realdecl => $1
standard_item : declassign => $1
standard_item : parameterdecl => $1
standard_item : localparamdecl => $1
standard_item : genvardecl => $1
standard_item : assignment => $1
standard_item : always => $1
standard_item : always_ff => $1
standard_item : always_comb => $1
standard_item : always_latch => $1
standard_item : initial => $1
standard_item : instance => $1
standard_item : function => $1
standard_item : task => $1
standard_item : pragma => $1
decl : sigtypes declnamelist SEMICOLON => Decl(each($2, lambda n, d: decls($1, n, None, d)))
decl : sigtypes width declnamelist SEMICOLON => Decl(each($3, lambda n, d: decls($1, n, $2, d)))
declnamelist : declnamelist COMMA declname => (*$1, $3)
declnamelist : declname => ($1,)
declname : ID => ($1, None)
declname : ID dimensions => ($1, $2)
declassign : sigtypes declassign_element SEMICOLON => Decl((*adecls($1, $2[0], None), $2[1]))
declassign : sigtypes width declassign_element SEMICOLON => Decl((*adecls($1, $3[0], $2), $3[1]))
declassign_element : ID EQUALS rvalue => ($1, Assign(Lvalue(Identifier($1)), $3))
declassign_element : delays ID EQUALS delays rvalue => ($2, Assign(Lvalue(Identifier($2)), $5, $1, $4))
integerdecl : INTEGER integernamelist SEMICOLON => Decl(each($2, lambda n, v: Integer(n, Width(IntConst('31'), IntConst('0')), True, None, v)))
integerdecl : INTEGER SIGNED integernamelist SEMICOLON => Decl(each($3, lambda n, v: Integer(n, Width(IntConst('31'), IntConst('0')), True, None, v)))
integernamelist : integernamelist COMMA integername => (*$1, $3)
integernamelist : integername => ($1,)
integername : ID EQUALS rvalue => ($1, $3)
integername : ID => ($1, None)
realdecl : REAL realnamelist SEMICOLON => Decl(each($2, lambda n: Real(n, Width(IntConst('31'), IntConst('0')))))
realnamelist : realnamelist COMMA realname => (*$1, $3)
realnamelist : realname => ($1,)
realname : ID => $1
parameterdecl : PARAMETER param_substitution_list SEMICOLON => Decl(each($2, lambda n, v: Parameter(n, v)))
parameterdecl : PARAMETER SIGNED param_substitution_list SEMICOLON => Decl(each($3, lambda n, v: Parameter(n, v, signed=True)))
parameterdecl : PARAMETER width param_substitution_list SEMICOLON => Decl(each($3, lambda n, v: Parameter(n, v, $2)))
parameterdecl : PARAMETER SIGNED width param_substitution_list SEMICOLON => Decl(each($4, lambda n, v: Parameter(n, v, $3, signed=True)))
parameterdecl : PARAMETER INTEGER param_substitution_list SEMICOLON => Decl(each($3, lambda n, v: Parameter(n, v)))
localparamdecl : LOCALPARAM param_substitution_list SEMICOLON => Decl(each($2, lambda n, v: Localparam(n, v)))
localparamdecl : LOCALPARAM SIGNED param_substitution_list SEMICOLON => Decl(each($3, lambda n, v: Localparam(n, v, signed=True)))
localparamdecl : LOCALPARAM width param_substitution_list SEMICOLON => Decl(each($3, lambda n, v: Localparam(n, v, $2)))
localparamdecl : LOCALPARAM SIGNED width param_substitution_list SEMICOLON => Decl(each($4, lambda n, v: Localparam(n, v, $3, signed=True)))
localparamdecl : LOCALPARAM INTEGER param_substitution_list SEMICOLON => Decl(each($3, lambda n, v: Localparam(n, v)))
param_substitution_list : param_substitution_list COMMA param_substitution => (*$1, $3)
param_substitution_list : param_substitution => ($1,)
param_substitution : ID EQUALS rvalue => ($1, $3)
assignment : ASSIGN lvalue EQUALS rvalue SEMICOLON => Assign($2, $4)
assignment : ASSIGN delays lvalue EQUALS delays rvalue SEMICOLON => Assign($3, $6, $2, $5)
lpartselect : pointer LBRACKET expression COLON expression RBRACKET => Partselect($1, $3, $5)
lpartselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET => Partselect($1, Plus($3, Minus($5, IntConst('1'))), $3)
lpartselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET => Partselect($1, $3, Minus($3, Minus($5, IntConst('1'))))
lpartselect : identifier LBRACKET expression COLON expression RBRACKET => Partselect($1, $3, $5)
lpartselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET => Partselect($1, Plus($3, Minus($5, IntConst('1'))), $3)
lpartselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET => Partselect($1, $3, Minus($3, Minus($5, IntConst('1'))))
lpointer : pointer => $1
lconcat : LBRACE lconcatlist RBRACE => LConcat($2)
lconcatlist : lconcatlist COMMA lconcat_one => (*$1, $3)
lconcatlist : lconcat_one => ($1,)
lconcat_one : identifier => $1
lconcat_one : lpartselect => $1
lconcat_one : lpointer => $1
lconcat_one : lconcat => $1
lvalue : lpartselect => Lvalue($1)
lvalue : lpointer => Lvalue($1)
lvalue : lconcat => Lvalue($1)
lvalue : identifier => Lvalue($1)
rvalue : expression => Rvalue($1)
expression : MINUS expression %prec UMINUS => Uminus($2)
expression : PLUS expression %prec UPLUS => $2
expression : LNOT expression %prec ULNOT => Ulnot($2)
expression : NOT expression %prec UNOT => Unot($2)
expression : AND expression %prec UAND => Uand($2)
expression : NAND expression %prec UNAND => Unand($2)
expression : NOR expression %prec UNOR => Unor($2)
expression : OR expression %prec UOR => Uor($2)
expression : XOR expression %prec UXOR => Uxor($2)
expression : XNOR expression %prec UXNOR => Uxnor($2)
expression : expression POWER expression => Power($1, $3)
expression : expression TIMES expression => Times($1, $3)
expression : expression DIVIDE expression => Divide($1, $3)
expression : expression MOD expression => Mod($1, $3)
expression : expression PLUS expression => Plus($1, $3)
expression : expression MINUS expression => Minus($1, $3)
expression : expression LSHIFT expression => Sll($1, $3)
expression : expression RSHIFT expression => Srl($1, $3)
expression : expression LSHIFTA expression => Sla($1, $3)
expression : expression RSHIFTA expression => Sra($1, $3)
expression : expression LT expression => LessThan($1, $3)
expression : expression GT expression => GreaterThan($1, $3)
expression : expression LE expression => LessEq($1, $3)
expression : expression GE expression => GreaterEq($1, $3)
expression : expression EQ expression => Eq($1, $3)
expression : expression NE expression => NotEq($1, $3)
expression : expression EQL expression => Eql($1, $3)
expression : expression NEL expression => NotEql($1, $3)
expression : expression AND expression => And($1, $3)
expression : expression XOR expression => Xor($1, $3)
expression : expression XNOR expression => Xnor($1, $3)
expression : expression OR expression => Or($1, $3)
expression : expression LAND expression => Land($1, $3)
expression : expression LOR expression => Lor($1, $3)
expression : expression COND expression COLON expression => Cond($1, $3, $5)
expression : LPAREN expression RPAREN => $2
expression : concat => $1
expression : repeat => $1
expression : partselect => $1
expression : pointer => $1
expression : functioncall => $1
expression : systemcall => $1
expression : identifier => $1
expression : const_expression => $1
concat : LBRACE concatlist RBRACE => Concat($2)
concatlist : concatlist COMMA expression => (*$1, $3)
concatlist : expression => ($1,)
repeat : LBRACE expression concat RBRACE => Repeat($3, $2)
partselect : identifier LBRACKET expression COLON expression RBRACKET => Partselect($1, $3, $5)
partselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET => Partselect($1, Plus($3, Minus($5, IntConst('1'))), $3)
partselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET => Partselect($1, $3, Minus($3, Minus($5, IntConst('1'))))
partselect : pointer LBRACKET expression COLON expression RBRACKET => Partselect($1, $3, $5)
partselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET => Partselect($1, Plus($3, Minus($5, IntConst('1'))), $3)
partselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET => Partselect($1, $3, Minus($3, Minus($5, IntConst('1'))))
pointer : identifier LBRACKET expression RBRACKET => Pointer($1, $3)
pointer : pointer LBRACKET expression RBRACKET => Pointer($1, $3)
const_expression : intnumber => IntConst($1)
const_expression : floatnumber => FloatConst($1)
const_expression : stringliteral => StringConst($1)
floatnumber : FLOATNUMBER => $1
intnumber : INTNUMBER_DEC => $1
intnumber : SIGNED_INTNUMBER_DEC => $1
intnumber : INTNUMBER_BIN => $1
intnumber : SIGNED_INTNUMBER_BIN => $1
intnumber : INTNUMBER_OCT => $1
intnumber : SIGNED_INTNUMBER_OCT => $1
intnumber : INTNUMBER_HEX => $1
intnumber : SIGNED_INTNUMBER_HEX => $1
stringliteral : STRING_LITERAL => unquote($1)
always : ALWAYS senslist always_statement => Always($2, $3)
always_ff : ALWAYS_FF senslist always_statement => AlwaysFF($2, $3)
always_comb : ALWAYS_COMB senslist always_statement => AlwaysComb($2, $3)
always_latch : ALWAYS_LATCH senslist always_statement => AlwaysLatch($2, $3)
senslist : AT LPAREN edgesigs RPAREN => SensList($3)
edgesig : POSEDGE edgesig_base => Sens($2, 'posedge')
edgesig : NEGEDGE edgesig_base => Sens($2, 'negedge')
edgesig_base : identifier => $1
edgesig_base : pointer => $1
edgesigs : edgesigs SENS_OR edgesig => (*$1, $3)
edgesigs : edgesigs COMMA edgesig => (*$1, $3)
edgesigs : edgesig => ($1,)
senslist : empty => SensList((Sens(None, 'all'),))
senslist : AT levelsig => SensList(($2,))
senslist : AT LPAREN levelsigs RPAREN => SensList($3)
levelsig : levelsig_base => Sens($1, 'level')
levelsig_base : identifier => $1
levelsig_base : pointer => $1
levelsig_base : partselect => $1
levelsigs : levelsigs SENS_OR levelsig => (*$1, $3)
levelsigs : levelsigs COMMA levelsig => (*$1, $3)
levelsigs : levelsig => ($1,)
senslist : AT TIMES => SensList((Sens(None, 'all'),))
senslist : AT LPAREN TIMES RPAREN => SensList((Sens(None, 'all'),))
basic_statement : if_statement => $1
basic_statement : case_statement => $1
basic_statement : casex_statement => $1
basic_statement : casez_statement => $1
basic_statement : unique_case_statement => $1
basic_statement : for_statement => $1
basic_statement : while_statement => $1
basic_statement : event_statement => $1
basic_statement : wait_statement => $1
basic_statement : forever_statement => $1
basic_statement : block => $1
basic_statement : namedblock => $1
basic_statement : parallelblock => $1
basic_statement : blocking_substitution => $1
basic_statement : nonblocking_substitution => $1
basic_statement : single_statement => $1
basic_statement : null_statement => $1
empty : => None
null_statement : SEMICOLON => Block(())
always_statement : basic_statement => $1
blocking_substitution : delays lvalue EQUALS delays rvalue SEMICOLON => BlockingSubstitution($2, $5, $1, $4)
blocking_substitution_base : delays lvalue EQUALS delays rvalue => BlockingSubstitution($2, $5, $1, $4)
nonblocking_substitution : delays lvalue LE delays rvalue SEMICOLON => NonblockingSubstitution($2, $5, $1, $4)
delays : DELAY LPAREN expression RPAREN => DelayStatement($3)
delays : DELAY identifier => DelayStatement($2)
delays : DELAY intnumber => DelayStatement(IntConst($2))
delays : DELAY floatnumber => DelayStatement(FloatConst($2))
delays : empty => None
block : BEGIN block_statements END => Block($2)
block : BEGIN END => Block(())
block_statements : block_statements block_statement => (*$1, $2)
block_statements : block_statement => ($1,)
block_statement : basic_statement => $1
namedblock : BEGIN COLON ID namedblock_statements END => Block($4, $3)
namedblock : BEGIN COLON ID END => Block((), $3)
namedblock_statements : namedblock_statements namedblock_statement => (*$1, $2)
namedblock_statements : namedblock_statement => ($1,)
namedblock_statement : basic_statement => $1
namedblock_statement : decl => $1
namedblock_statement : integerdecl => $1
namedblock_statement : realdecl => $1
namedblock_statement : parameterdecl => $1
namedblock_statement : localparamdecl => $1
parallelblock : FORK block_statements JOIN => ParallelBlock($2)
parallelblock : FORK JOIN => ParallelBlock(())
if_statement : IF LPAREN cond RPAREN true_statement ELSE else_statement => IfStatement($3, $5, $7)
if_statement : IF LPAREN cond RPAREN true_statement => IfStatement($3, $5, None)
if_statement : delays IF LPAREN cond RPAREN true_statement ELSE else_statement => IfStatement($4, $6, $8)
if_statement : delays IF LPAREN cond RPAREN true_statement => IfStatement($4, $6, None)
cond : expression => $1
ifcontent_statement : basic_statement => $1
true_statement : ifcontent_statement => $1
else_statement : ifcontent_statement => $1
for_statement : FOR LPAREN forpre forcond forpost RPAREN forcontent_statement => ForStatement($3, $4, $5, $7)
forpre : blocking_substitution => $1
forpre : SEMICOLON => None
forcond : cond SEMICOLON => $1
forcond : SEMICOLON => None
forpost : blocking_substitution_base => $1
forpost : empty => None
forcontent_statement : basic_statement => $1
while_statement : WHILE LPAREN cond RPAREN whilecontent_statement => WhileStatement($3, $5)
whilecontent_statement : basic_statement => $1
case_statement : CASE LPAREN case_comp RPAREN casecontent_statements ENDCASE => CaseStatement($3, $5)
casex_statement : CASEX LPAREN case_comp RPAREN casecontent_statements ENDCASE => CasexStatement($3, $5)
casez_statement : CASEZ LPAREN case_comp RPAREN casecontent_statements ENDCASE => CasezStatement($3, $5)
unique_case_statement : UNIQUE CASE LPAREN case_comp RPAREN casecontent_statements ENDCASE => UniqueCaseStatement($4, $6)
case_comp : expression => $1
casecontent_statements : casecontent_statements casecontent_statement => (*$1, $2)
casecontent_statements : casecontent_statement => ($1,)
casecontent_statement : casecontent_condition COLON basic_statement => Case($1, $3)
casecontent_condition : casecontent_condition COMMA expression => (*$1, $3)
casecontent_condition : expression => ($1,)
casecontent_statement : DEFAULT COLON basic_statement => Case(None, $3)
initial : INITIAL initial_statement => Initial($2)
initial_statement : basic_statement => $1
event_statement : senslist SEMICOLON => EventStatement($1)
wait_statement : WAIT LPAREN cond RPAREN waitcontent_statement => WaitStatement($3, $5)
waitcontent_statement : basic_statement => $1
waitcontent_statement : SEMICOLON => None
forever_statement : FOREVER basic_statement => ForeverStatement($2)
instance : ID parameterlist instance_bodylist SEMICOLON => InstanceList($1, $2, each($3, lambda n, q, a: Instance($1, n, q, $2, a)))
instance : SENS_OR parameterlist instance_bodylist SEMICOLON => InstanceList($1, $2, each($3, lambda n, q, a: Instance($1, n, q, $2, a)))
instance_bodylist : instance_bodylist COMMA instance_body => (*$1, $3)
instance_bodylist : instance_body => ($1,)
instance_body : ID LPAREN instance_ports RPAREN => ($1, $3, None)
instance_body : ID width LPAREN instance_ports RPAREN => ($1, $4, $2)
instance : ID instance_bodylist_noname SEMICOLON => InstanceList($1, (), each($2, lambda n, q, a: Instance($1, n, q, (), a)))
instance : SENS_OR instance_bodylist_noname SEMICOLON => InstanceList($1, (), each($2, lambda n, q, a: Instance($1, n, q, (), a)))
instance_bodylist_noname : instance_bodylist_noname COMMA instance_body_noname => (*$1, $3)
instance_bodylist_noname : instance_body_noname => ($1,)
instance_body_noname : LPAREN instance_ports RPAREN => ('', $2, None)
parameterlist : DELAY LPAREN param_args RPAREN => $3
parameterlist : DELAY LPAREN param_args_noname RPAREN => $3
parameterlist : empty => ()
param_args_noname : param_args_noname COMMA param_arg_noname => (*$1, $3)
param_args_noname : param_arg_noname => ($1,)
param_args : param_args COMMA param_arg => (*$1, $3)
param_args : param_arg => ($1,)
param_args : empty => ()
param_arg_noname : expression => ParamArg(None, $1)
param_arg : DOT ID LPAREN expression RPAREN => ParamArg($2, $4)
instance_ports : instance_ports_list => $1
instance_ports : instance_ports_arg => $1
instance_ports_list : instance_ports_list COMMA instance_port_list => (*$1, $3)
instance_ports_list : instance_port_list => ($1,)
instance_ports : empty => ()
instance_ports_list : instance_ports_list COMMA => (*$1, PortArg(None, None))
instance_ports_list : COMMA instance_port_list => (PortArg(None, None), $2)
instance_ports_list : COMMA => (PortArg(None, None), PortArg(None, None))
instance_port_list : expression => PortArg(None, $1)
instance_ports_arg : instance_ports_arg COMMA instance_port_arg => (*$1, $3)
instance_ports_arg : instance_port_arg => ($1,)
instance_port_arg : DOT ID LPAREN identifier RPAREN => PortArg($2, $4)
instance_port_arg : DOT ID LPAREN expression RPAREN => PortArg($2, $4)
instance_port_arg : DOT ID LPAREN RPAREN => PortArg($2, None)
genvardecl : GENVAR genvarlist SEMICOLON => Decl($2)
genvarlist : genvarlist COMMA genvar => (*$1, $3)
genvarlist : genvar => ($1,)
genvar : ID => Genvar(name=$1, width=Width(msb=IntConst('31'), lsb=IntConst('0')))
generate : GENERATE generate_items ENDGENERATE => GenerateStatement($2)
generate_items : empty => ()
generate_items : generate_items generate_item => (*$1, $2)
generate_items : generate_item => ($1,)
generate_item : standard_item => $1
generate_item : generate_if => $1
generate_item : generate_for => $1
generate_block : BEGIN generate_items END => Block($2)
generate_block : BEGIN COLON ID generate_items END => Block($4, $3)
generate_if : IF LPAREN cond RPAREN gif_true_item ELSE gif_false_item => IfStatement($3, $5, $7)
generate_if : IF LPAREN cond RPAREN gif_true_item => IfStatement($3, $5, None)
gif_true_item : generate_item => $1
gif_true_item : generate_block => $1
gif_false_item : generate_item => $1
gif_false_item : generate_block => $1
generate_for : FOR LPAREN forpre forcond forpost RPAREN generate_forcontent => ForStatement($3, $4, $5, $7)
generate_forcontent : generate_item => $1
generate_forcontent : generate_block => $1
systemcall : DOLLER ID => SystemCall($2, ())
systemcall : DOLLER ID LPAREN sysargs RPAREN => SystemCall($2, $4)
systemcall : DOLLER SIGNED LPAREN sysargs RPAREN => SystemCall($2, $4)
sysargs : sysargs COMMA sysarg => (*$1, $3)
sysargs : sysarg => ($1,)
sysargs : empty => ()
sysarg : expression => $1
function : FUNCTION width ID SEMICOLON function_statement ENDFUNCTION => Function($3, $2, $5)
function : FUNCTION ID SEMICOLON function_statement ENDFUNCTION => Function($2, Width(IntConst('0'), IntConst('0')), $4)
function : FUNCTION INTEGER ID SEMICOLON function_statement ENDFUNCTION => Function($3, Width(IntConst('31'), IntConst('0')), $5)
function_statement : funcvardecls function_calc => (*$1, $2)
funcvardecls : funcvardecls funcvardecl => (*$1, $2)
funcvardecls : funcvardecl => ($1,)
funcvardecl : decl => $1
funcvardecl : integerdecl => $1
function_calc : blocking_substitution => $1
function_calc : if_statement => $1
function_calc : for_statement => $1
function_calc : while_statement => $1
function_calc : case_statement => $1
function_calc : casex_statement => $1
function_calc : casez_statement => $1
function_calc : block => $1
function_calc : namedblock => $1
functioncall : identifier LPAREN func_args RPAREN => FunctionCall($1, $3)
func_args : func_args COMMA expression => (*$1, $3)
func_args : expression => ($1,)
func_args : empty => ()
task : TASK ID SEMICOLON task_statement ENDTASK => Task($2, $4)
task_statement : taskvardecls task_calc => (*$1, $2)
taskvardecls : taskvardecls taskvardecl => (*$1, $2)
taskvardecls : taskvardecl => ($1,)
taskvardecls : empty => ()
taskvardecl : decl => $1
taskvardecl : integerdecl => $1
task_calc : blocking_substitution => $1
task_calc : if_statement => $1
task_calc : for_statement => $1
task_calc : while_statement => $1
task_calc : case_statement => $1
task_calc : casex_statement => $1
task_calc : casez_statement => $1
task_calc : block => $1
task_calc : namedblock => $1
identifier : ID => Identifier($1)
identifier : scope ID => Identifier($2, $1)
scope : identifier DOT => IdentifierScope((*labels($1.scope), IdentifierScopeLabel($1.name)))
scope : pointer DOT => IdentifierScope((*labels($1.var.scope), IdentifierScopeLabel($1.var.name, $1.ptr)))
disable : DISABLE ID => Disable($2)
single_statement : DELAY expression SEMICOLON => SingleStatement(DelayStatement($2))
single_statement : systemcall SEMICOLON => SingleStatement($1)
single_statement : disable SEMICOLON => SingleStatement($1)'''
