/*
  XML documents: the tree they denote, and safety for any other text.
*/
#include "common.h"

enum { OPEN,CLOSE,EMPTY,TEXT,SPACE,COMMENT,PI,DECL,DOCTYPE,CDATA,REF,UNDECLARED };

typedef struct { const char *text; int kind; const char *tag,*value,*attributes; } token;

/* attributes of the model: name=value pairs ended by \1 */
static const token tokens[]=
{
  { "<a>",OPEN,"a",NULL,"" },
  { "</a>",CLOSE,"a" },
  { "<b c=\"1\">",OPEN,"b",NULL,"c=1\1" },
  { "</b>",CLOSE,"b" },
  { "<a/>",EMPTY,"a",NULL,"" },
  { "t",TEXT,NULL,"t" },
  { "<b d='&lt;\"' e=\"\"/>",EMPTY,"b",NULL,"d=<\"\1e=\1" },
  { "&amp;",REF,NULL,"&" },
  { "&e;",UNDECLARED,NULL,"f<" },
  { "<![CDATA[<&amp;]]>",CDATA,NULL,"<&amp;" },
  { "<!-- <a> & -->",COMMENT },
  { "<!DOCTYPE a [<!ENTITY e \"f&#60;\"><!ATTLIST a g CDATA 'h'>]>",DOCTYPE },
  { "\n",SPACE,NULL,"\n" },
  { "<?p q?>",PI },
  { "<?xml version=\"1.0\"?>",DECL },
  { "</a >",CLOSE,"a" },
  { "<b\n c='x y' d = \"&#x41;\">",OPEN,"b",NULL,"c=x y\1d=A\1" },
  { "&#233;",REF,NULL,"\303\251" },
  { "&#x20AC;",REF,NULL,"\342\202\254" },
  { "\r\n",SPACE,NULL,"\n" },
  { "u&gt;&quot;&apos;\rv",TEXT,NULL,"u>\"'\nv" },
  { "<ab />",EMPTY,"ab",NULL,"" },
  { "<a:b c=\"/>\" >",OPEN,"a:b",NULL,"c=/>\1" },
  { "</a:b>",CLOSE,"a:b" },
  { "<!---->",COMMENT },
  { "<![CDATA[]]>",CDATA,NULL,"" },
  { "<?p?>",PI },
  { "<!DOCTYPE a>",DOCTYPE }
};
#define TOKENS ((int) (sizeof(tokens)/sizeof(*tokens)))

/* the model */
#define NODES 16
typedef struct { const char *tag,*attributes; int parent; char content[256]; } node;
static node model[NODES];
static int nodes,defaults;

/* returns 1 and fills the model if the document is well formed; 0 if not; -1 if it cannot become so */
static int denote(const int *doc,int n)
{
  int i,current=-1,doctype=0,declared=0,closed=0;
  nodes=0;
  defaults=0;
  for (i=0; i < n; i++)
  {
    const token *t=tokens+doc[i];
    switch (t->kind)
    {
      case OPEN: case EMPTY:
        if (closed || nodes == NODES)
          return(-1);
        model[nodes].tag=t->tag;
        model[nodes].attributes=t->attributes;
        model[nodes].parent=current;
        *model[nodes].content='\0';
        current=nodes++;
        if (t->kind == EMPTY)
          {
            current=model[current].parent;
            closed=current < 0;
          }
        break;
      case CLOSE:
        if (current < 0 || strcmp(model[current].tag,t->tag) != 0)
          return(-1);
        current=model[current].parent;
        closed=current < 0;
        break;
      case UNDECLARED:
        if (!declared)
          return(-1);
        /* fall through */
      case TEXT: case CDATA: case REF:
        if (current < 0)
          return(-1);
        strcat(model[current].content,t->value);
        break;
      case SPACE:
        if (current >= 0)
          strcat(model[current].content,t->value);
        break;
      case DECL:
        if (i)
          return(-1);
        break;
      case DOCTYPE:
        if (nodes || doctype)
          return(-1);
        doctype=1;
        if (strchr(t->text,'[') != NULL)
          declared=defaults=1;
        break;
      default:
        break;
    }
  }
  return(closed);
}

static int same(const char *p,const char *q)
{
  return(p == NULL ? q == NULL : q != NULL && strcmp(p,q) == 0);
}

static void wrong(const char *text,int i,const char *what,const char *is,const char *expected)
{
  mc_fail("document\n%s\nnode %d (%s): %s is \"%s\", \"%s\" expected",text,i,model[i].tag,what,is ? is : "(none)",
    expected ? expected : "(none)");
}

/* the node is the model's node i, and so on for its children */
static void compare(XMLTreeInfo *tree,int i,const char *text)
{
  static const char *const names[]={ "c","d","e","g","x" };
  XMLTreeInfo *child,*q;
  int j,k,count=0;
  SplayTreeInfo *attributes;
  const char *p;
  if (!same(GetXMLTreeTag(tree),model[i].tag))
    wrong(text,i,"the tag",GetXMLTreeTag(tree),model[i].tag);
  if (!same(GetXMLTreeContent(tree),model[i].content))
    wrong(text,i,"the content",GetXMLTreeContent(tree),model[i].content);
  for (j=0; j < 5; j++)
  {
    char value[16],*e=NULL;
    for (p=model[i].attributes; *p; p=strchr(p,'\1')+1)
      if (p[0] == names[j][0] && p[1] == '=')
        {
          size_t m=strchr(p,'\1')-p-2;
          memcpy(value,p+2,m);
          value[m]='\0';
          e=value;
          count++;
        }
    if (e == NULL && defaults && names[j][0] == 'g' && strcmp(model[i].tag,"a") == 0)
      e="h";
    if (!same(GetXMLTreeAttribute(tree,names[j]),e))
      wrong(text,i,names[j],GetXMLTreeAttribute(tree,names[j]),e);
  }
  attributes=NewSplayTree(CompareSplayTreeString,RelinquishWizardMemory,RelinquishWizardMemory);
  (void) GetXMLTreeAttributes(tree,attributes);
  if ((int) GetNumberOfNodesInSplayTree(attributes) != count)
    mc_fail("document\n%s\nnode %d has %d attributes, %d expected",text,i,
      (int) GetNumberOfNodesInSplayTree(attributes),count);
  attributes=DestroySplayTree(attributes);
  child=GetXMLTreeChild(tree,NULL);
  for (j=i+1; j < nodes; j++)
    if (model[j].parent == i)
      {
        if (child == NULL)
          mc_fail("document\n%s\nnode %d: its child %d is missing",text,i,j);
        compare(child,j,text);
        /* the next of the same tag */
        for (k=j+1, q=GetXMLTreeOrdered(child); k < nodes; k++)
          if (model[k].parent == i)
            {
              if (q == NULL || strcmp(model[k].tag,model[j].tag) == 0)
                break;
              q=GetXMLTreeOrdered(q);
            }
        if (GetNextXMLTreeTag(child) != (k < nodes ? q : NULL))
          mc_fail("document\n%s\nnode %d: the next of the same tag is wrong",text,j);
        /* the first of its tag */
        for (k=i+1; k < j && !(model[k].parent == i && strcmp(model[k].tag,model[j].tag) == 0); k++);
        if ((GetXMLTreeChild(tree,model[j].tag) == child) != (k == j))
          mc_fail("document\n%s\nnode %d: the first child named %s is wrong",text,i,model[j].tag);
        child=GetXMLTreeOrdered(child);
      }
  if (child != NULL)
    mc_fail("document\n%s\nnode %d has too many children",text,i);
}

static long accepted,malformed;

/* parses any text, walks the tree, writes it and destroys it */
static void walk(XMLTreeInfo *p,int depth)
{
  XMLTreeInfo *q;
  for (q=GetXMLTreeChild(p,NULL); q != NULL; q=GetXMLTreeOrdered(q))
  {
    (void) GetXMLTreeAttribute(q,"c");
    MC_CHECK(GetXMLTreeTag(q) != NULL && GetXMLTreeContent(q) != NULL,"a child has no tag or content");
    walk(q,depth+1);
  }
}

static XMLTreeInfo *parse(const void *text,size_t n,ExceptionInfo *exception)
{
  char *copy=malloc(n+1);
  XMLTreeInfo *tree;
  memcpy(copy,text,n);
  copy[n]='\0';
  if (mc_noting())
    mc_note("%s\n",copy);
  tree=NewXMLTree(copy,exception);
  free(copy);
  mc_transition();
  return(tree);
}

static void any(const void *text,size_t n)
{
  ExceptionInfo *exception=AcquireExceptionInfo();
  XMLTreeInfo *tree=parse(text,n,exception);
  if (tree == NULL && GetExceptionSeverity(exception) == UndefinedException)
    mc_fail("neither a tree nor an error for %s",(char *) text);
  if (tree != NULL)
    {
      if (GetXMLTreeTag(tree) != NULL)
        walk(tree,0);
      tree=DestroyXMLTree(tree);
    }
  if (GetExceptionSeverity(exception) == UndefinedException)
    accepted++;
  else
    malformed++;
  exception=DestroyExceptionInfo(exception);
}

static void document(const int *doc,int n)
{
  char text[1024];
  int i,well;
  size_t m=0;
  for (i=0; i < n; i++)
    m+=snprintf(text+m,sizeof(text)-m,"%s",tokens[doc[i]].text);
  well=denote(doc,n);
  if (well != 1)
    any(text,m);
  else
    {
      ExceptionInfo *exception=AcquireExceptionInfo();
      XMLTreeInfo *tree=parse(text,m,exception);
      if (tree == NULL || GetExceptionSeverity(exception) != UndefinedException)
        mc_fail("the document\n%s\nis rejected",text);
      compare(tree,0,text);
      tree=DestroyXMLTree(tree);
      exception=DestroyExceptionInfo(exception);
      mc_count(0,1);
    }
}

static void extend(int *doc,int n,int limit,int well,int size)
{
  int i;
  if (n)
    document(doc,n);
  if (n == limit)
    return;
  for (i=0; i < size; i++)
  {
    doc[n]=i;
    if (!well || denote(doc,n+1) >= 0)
      extend(doc,n+1,limit,well,size);
  }
}

/* every sequence of tokens, and longer ones that stay well formed */
static void documents(void)
{
  int doc[16],well=mc_choose(2,"well formed"),n,i,first=2;
  for (i=0; i < first; i++)
    doc[i]=mc_choose(TOKENS,"token");
  n=well ? mc_thorough() ? 6 : 5 : mc_thorough() ? 5 : 4;
  if (well && denote(doc,first) < 0)
    mc_skip();
  extend(doc,first,n,well,TOKENS);
  if (!well)
    document(doc,1);
}

/* deeper documents over few tokens */
static void deep(void)
{
  static const int few=6;
  int doc[16],i;
  for (i=0; i < 4; i++)
    doc[i]=mc_choose(few,"token");
  if (denote(doc,4) < 0)
    mc_skip();
  extend(doc,4,mc_thorough() ? 12 : 10,1,few);
}

static void pieces(const char *const *piece,int count,int n,int first,const char *before,const char *after)
{
  int index[8],i,k=n-first;
  char text[1024];
  for (i=0; i < first; i++)
    index[i]=mc_choose(count+1,"piece")-1;
  for (i=0; i < k; i++)
    index[first+i]=-1;
  for ( ; ; )
  {
    size_t m=snprintf(text,sizeof(text),"%s",before);
    for (i=0; i < n; i++)
      if (index[i] >= 0)
        m+=snprintf(text+m,sizeof(text)-m,"%s",piece[index[i]]);
    m+=snprintf(text+m,sizeof(text)-m,"%s",after);
    any(text,m);
    for (i=first; i < n; i++)
    {
      if (++index[i] < count)
        break;
      index[i]=-1;
    }
    if (i == n)
      break;
  }
}

/* pieces of markup in any order */
static void broken(void)
{
  static const char *const piece[]={ "<","</",">","/>","a"," ","=","\"","'","&","&#",";","60","x3c","<!--","-->",
    "<![CDATA[","]]>","<?","?>","<!DOCTYPE","[","]","<!","<a>","</a>","\r","\351","<rdf:Bag>","</rdf:Bag>",
    "<rdf:Seq c=\"d\"/>","&lt;" };
  pieces(piece,sizeof(piece)/sizeof(*piece),mc_thorough() ? 5 : 4,2,mc_choose(2,"before") ? "<a>" : "","");
}

/* pieces of a document type */
static void doctype(void)
{
  static const char *const piece[]={ "<!ENTITY "," e "," f","%"," % ","\"","'","\"v\"","'&e;'","\"%e;\"",">",
    "<!ATTLIST "," a"," x"," CDATA "," (p|q) ","(","#FIXED ","#IMPLIED"," NOTATION"," \"y\"","<!--","-->","<?","?>",
    "<!ELEMENT","&e;","]","\r","SYSTEM","&#60;","<" };
  static const char *const before[]={ "<!DOCTYPE a [","<!DOCTYPE a [<!ENTITY e ","<!DOCTYPE a [<!ATTLIST a x ",
    "<!DOCTYPE a [<!ENTITY % e \"f\">","<!DOCTYPE a [<!ENTITY e \"f\"><!ATTLIST a","<?xml standalone=\"yes\"?><!DOCTYPE a [" };
  static const char *const after[]={ "","]","]>","]><a>&e;</a>","]><a x=\"&e; z\" y='&f;'/>" };
  int b=mc_choose(6,"before"),e=mc_choose(5,"after");
  pieces(piece,sizeof(piece)/sizeof(*piece),mc_thorough() ? 4 : 3,1,before[b],after[e]);
}

/* every short text over markup characters */
static void bytes(void)
{
  static const char set[]="<>/a =\"&;!?-[]#\r%";
  enum { SET=sizeof(set)-1 };
  int n=mc_thorough() ? 6 : 5,i,index[8]={ 0 };
  char text[16];
  for (i=0; i < 2; i++)
    index[i]=mc_choose(SET,"byte");
  for ( ; ; )
  {
    for (i=0; i < n; i++)
      text[i]=set[index[i]];
    for (i=n; i >= 1; i--)
    {
      any(text,i);
      if (i > 2 && index[i-1] != 0)
        break;
    }
    for (i=n-1; i > 1 && ++index[i] == SET; i--)
      index[i]=0;
    if (i == 1)
      break;
  }
}

/* text marked as UTF-16 */
static void wide(void)
{
  static const unsigned char set[]={ '<','a','>','/',0xd8,0xdc,0xe9,0x01,0xff,0xfe,0x80 };
  enum { SET=sizeof(set) };
  int n=mc_thorough() ? 5 : 4,i,index[8]={ 0 };
  unsigned char text[16];
  text[0]=mc_choose(2,"order") ? 0xfe : 0xff;
  text[1]=mc_choose(2,"mark") ? 0xfe : 0xff;
  index[0]=mc_choose(SET,"byte");
  for ( ; ; )
  {
    for (i=0; i < n; i++)
      text[i+2]=set[index[i]];
    for (i=0; i <= n; i++)
      any(text,i+2);
    any(text,1);
    for (i=n-1; i > 0 && ++index[i] == SET; i--)
      index[i]=0;
    if (i == 0)
      break;
  }
}

static const char sample[]=
  "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone='yes' ?>\n"
  "<!DOCTYPE configuremap [\n"
  "  <!ENTITY % p \"q\">\n"
  "  <!ENTITY copy \"&#169; %p; &lt;\">\n"
  "  <!ELEMENT configuremap (configure)+>\n"
  "  <!ATTLIST configuremap xmlns CDATA #FIXED ''>\n"
  "  <!ATTLIST configure name NMTOKEN #REQUIRED value CDATA ' x  y '>\n"
  "  <!-- \"remark\" --> <?target data?>\n"
  "]>\n"
  "<configuremap>\n"
  "  <!-- \"unknown\" -->\n"
  "  <configure name=\"NAME\" value=\"Wizard's\tToolkit &copy;\"/>\r\n"
  "  <include file='a&amp;b.xml' />\n"
  "  <rdf:Bag><rdf:li>1</rdf:li></rdf:Bag>\n"
  "  <text>a<![CDATA[ <b> ]]>&copy;&#x20ac;</text>\n"
  "</configuremap>\n<?after root?>\n";

/* a sample document cut, or with a byte changed, removed or inserted */
static void damaged(void)
{
  static const char set[]="<>/a =\"'&;!?-[]#\r\n%\351";
  int kind=mc_choose(4,"damage"),k,count=kind == 0 || kind == 3 ? (int) sizeof(set)-1 : 1;
  size_t n=sizeof(sample)-1,part=mc_choose(32,"part"),at;
  char text[sizeof(sample)+1];
  for (at=part; at < n; at+=32)
    for (k=0; k < count; k++)
    {
      size_t m=n;
      memcpy(text,sample,n);
      switch (kind)
      {
        case 0: text[at]=set[k]; break;
        case 1: m=at; break;
        case 2: memmove(text+at,text+at+1,n-at-1); m=n-1; break;
        case 3: memmove(text+at+1,text+at,n-at); text[at]=set[k]; m=n+1; break;
      }
      text[m]='\0';
      any(text,m);
    }
}

/* the sample itself */
static void whole(void)
{
  ExceptionInfo *exception=AcquireExceptionInfo();
  XMLTreeInfo *tree=parse(sample,sizeof(sample)-1,exception),*p;
  MC_CHECK(tree != NULL && GetExceptionSeverity(exception) == UndefinedException,"the sample is rejected");
  p=GetXMLTreeChild(tree,"configure");
  MC_CHECK(p != NULL && same(GetXMLTreeAttribute(p,"value"),"Wizard's Toolkit \302\251 q <"),
    "the attribute is \"%s\"",GetXMLTreeAttribute(p,"value"));
  MC_CHECK(same(GetXMLTreeAttribute(p,"name"),"NAME"),"the attribute is \"%s\"",GetXMLTreeAttribute(p,"name"));
  p=GetXMLTreeChild(tree,"include");
  MC_CHECK(p != NULL && same(GetXMLTreeAttribute(p,"file"),"a&b.xml"),"the included name is wrong");
  p=GetXMLTreeChild(tree,"text");
  MC_CHECK(p != NULL && same(GetXMLTreeContent(p),"a <b> \302\251 q <\342\202\254"),"the content is \"%s\"",
    GetXMLTreeContent(p));
  MC_CHECK(same(GetXMLTreeAttribute(tree,"xmlns"),""),"the fixed attribute is missing");
  MC_CHECK(same(GetXMLTreeProcessingInstructions(tree,"target")[0],"data") &&
    GetXMLTreeProcessingInstructions(tree,"target")[1] == NULL,"the instruction is wrong");
  MC_CHECK(same(GetXMLTreeProcessingInstructions(tree,"after")[0],"root"),"the last instruction is wrong");
  MC_CHECK(GetXMLTreeProcessingInstructions(tree,"none")[0] == NULL,"there is an unknown instruction");
  tree=DestroyXMLTree(tree);
  exception=DestroyExceptionInfo(exception);
}

/* every sequence of declarations, and what they give to a document */
static void declarations(void)
{
  static const struct { const char *text; int entity; const char *value; const char *tag,*name,*type,*dflt; } d[]=
  {
    { "<!ENTITY e \"v\">",'e',"v" },
    { "<!ATTLIST a x CDATA \"1\">",0,NULL,"a","x","c","1" },
    { "<!ATTLIST b x NMTOKENS \" 2  3 \">",0,NULL,"b","x","n","2 3" },
    { "<!ATTLIST b y CDATA #FIXED ' &amp; '>",0,NULL,"b","y","c"," & " },
    { "<!ENTITY f '&#65;&lt;b'>",'f',"A<b" },
    { "<!ATTLIST a x (p|q) 'p'>",0,NULL,"a","x","n","p" },
    { "<!ATTLIST a y ID #IMPLIED>",0,NULL,"a","y","n",NULL },
    { "<!ENTITY e 'other'>",'e',"other" },
    { "<!ELEMENT a ANY>" },
    { " <!-- <!ENTITY f 'no'> -->\n" },
    { "<?p <!ENTITY f 'no'> ?>" },
    { "<!ENTITY f SYSTEM \"g\">" },
    { "<!ATTLIST a x CDATA #REQUIRED>",0,NULL,"a","x","c",NULL },
    { "<!NOTATION n SYSTEM 's'>" }
  };
  enum { COUNT=sizeof(d)/sizeof(*d) };
  static const char *const names[]={ "x","y" },*const tags[]={ "a","b" };
  int n=mc_choose(mc_thorough() ? 5 : 4,"length")+1,pick[8],i,j,k,given;
  char text[1024],value[64];
  const char *entity[2]={ NULL,NULL };
  ExceptionInfo *exception;
  XMLTreeInfo *tree,*node;
  size_t m=0;
  m=snprintf(text,sizeof(text),"<!DOCTYPE a [");
  for (i=0; i < n; i++)
  {
    pick[i]=mc_choose(COUNT,"declaration");
    m+=snprintf(text+m,sizeof(text)-m,"%s",d[pick[i]].text);
    k=d[pick[i]].entity-'e';
    if (d[pick[i]].entity && entity[k] == NULL)
      entity[k]=d[pick[i]].value;
    if (pick[i] == 11 && entity[1] == NULL)
      mc_skip();        /* an external entity has no text */
  }
  given=mc_choose(3,"attributes");
  m+=snprintf(text+m,sizeof(text)-m,"]><a><b%s/>%s%s</a>",given == 0 ? "" : given == 1 ? " x=\"\t4  5 \"" :
    " y='&lt;  6'",entity[0] ? "-&e;" : "",entity[1] ? "-&f;-" : "");
  exception=AcquireExceptionInfo();
  tree=parse(text,m,exception);
  MC_CHECK(tree != NULL && GetExceptionSeverity(exception) == UndefinedException,"the document\n%s\nis rejected",text);
  snprintf(value,sizeof(value),"%s%s%s%s%s",entity[0] ? "-" : "",entity[0] ? entity[0] : "",entity[1] ? "-" : "",
    entity[1] ? entity[1] : "",entity[1] ? "-" : "");
  MC_CHECK(same(GetXMLTreeContent(tree),value),"document\n%s\nthe content is \"%s\", \"%s\" expected",text,
    GetXMLTreeContent(tree),value);
  node=GetXMLTreeChild(tree,NULL);
  MC_CHECK(node != NULL && GetXMLTreeOrdered(node) == NULL,"document\n%s\nthe children are wrong",text);
  for (j=0; j < 2; j++)
    for (k=0; k < 2; k++)
    {
      const char *expect=NULL,*type="c";
      for (i=0; i < n; i++)
        if (d[pick[i]].tag != NULL && strcmp(d[pick[i]].tag,tags[j]) == 0 && strcmp(d[pick[i]].name,names[k]) == 0)
          {
            expect=d[pick[i]].dflt;
            type=d[pick[i]].type;
            break;
          }
      /* the list of declarations keeps no CDATA attribute without a default; a later one counts */
      if (j == 0 && k == 0 && expect == NULL && i < n)
        for (i++; i < n; i++)
          if (d[pick[i]].tag != NULL && strcmp(d[pick[i]].tag,"a") == 0 && strcmp(d[pick[i]].name,"x") == 0)
            mc_skip();
      if (j == 1 && given == 1 && k == 0)
        expect=*type == 'n' ? "4 5" : " 4  5 ";
      if (j == 1 && given == 2 && k == 1)
        expect="<  6";
      MC_CHECK(same(GetXMLTreeAttribute(j ? node : tree,names[k]),expect),
        "document\n%s\nattribute %s of %s is \"%s\", \"%s\" expected",text,names[k],tags[j],
        GetXMLTreeAttribute(j ? node : tree,names[k]),expect ? expect : "(none)");
    }
  tree=DestroyXMLTree(tree);
  exception=DestroyExceptionInfo(exception);
  mc_count(0,1);
  mc_observe(text,m);
}

static void body(void)
{
  accepted=malformed=0;
  switch (mc_choose(9,"part"))
  {
    case 0: whole(); break;
    case 1: declarations(); break;
    case 8: documents(); break;
    case 2: deep(); break;
    case 3: damaged(); break;
    case 4: bytes(); break;
    case 5: broken(); break;
    case 6: doctype(); break;
    case 7: wide(); break;
  }
  mc_count(1,accepted);
  mc_count(2,malformed);
  mc_observe_int(accepted);
  mc_observe_int(malformed);
  mc_nontrivial();
}

static void init(void)
{
  mc_counter_name(0,"well-formed documents compared");
  mc_counter_name(1,"other texts accepted");
  mc_counter_name(2,"other texts rejected");
}

const char *__asan_default_options(void)
{
  return("quarantine_size_mb=1");
}

static const mc_harness h=
{
  .property="C31",.name="xml_parse",.rule="every sequence of XML tokens and pieces: the tree is the one denoted",
  .init=init,.body=body,.watchdog=120
};

int main(int argc,char **argv)
{
  return(mc_main(argc,argv,&h));
}
