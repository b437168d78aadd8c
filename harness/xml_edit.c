/*
  Editing an XML tree, against an ordered-tree model; writing and parsing it.
*/
#include "common.h"

#define NODES 12
typedef struct
{
  const char *tag,*content,*attribute[2];
  int parent,children,child[NODES];
  size_t offset;
  int used;
  XMLTreeInfo *tree;
} node;

static node model[NODES];
static int count;

static const char *const names[]={ "x","y" };

static int create(const char *tag,XMLTreeInfo *tree)
{
  node *p=model+count;
  memset(p,0,sizeof(*p));
  p->tag=tag;
  p->content="";
  p->parent=-1;
  p->tree=tree;
  p->used=1;
  return(count++);
}

static void insert(int parent,int child,size_t offset)
{
  node *p=model+parent;
  int i;
  for (i=p->children; i > 0 && model[p->child[i-1]].offset > offset; i--)
    p->child[i]=p->child[i-1];
  p->child[i]=child;
  p->children++;
  model[child].parent=parent;
  model[child].offset=offset;
}

static void detach(int child)
{
  node *p=model+model[child].parent;
  int i;
  for (i=0; p->child[i] != child; i++);
  memmove(p->child+i,p->child+i+1,(p->children-i-1)*sizeof(*p->child));
  p->children--;
  model[child].parent=-1;
}

static void forget(int i)
{
  int j;
  model[i].used=0;
  for (j=0; j < model[i].children; j++)
    forget(model[i].child[j]);
}

static int same(const char *p,const char *q)
{
  return(p == NULL ? q == NULL : q != NULL && strcmp(p,q) == 0);
}

/* the attributes of a node, as a set */
static void attributes(XMLTreeInfo *tree,int i,const char *when)
{
  int k,n=0;
  SplayTreeInfo *list;
  for (k=0; k < 2; k++)
  {
    if (!same(GetXMLTreeAttribute(tree,names[k]),model[i].attribute[k]))
      mc_fail("%s attribute %s of node %d (%s) is \"%s\", \"%s\" expected",when,names[k],i,model[i].tag,
        GetXMLTreeAttribute(tree,names[k]),model[i].attribute[k] ? model[i].attribute[k] : "(none)");
    n+=model[i].attribute[k] != NULL;
  }
  list=NewSplayTree(CompareSplayTreeString,RelinquishWizardMemory,RelinquishWizardMemory);
  (void) GetXMLTreeAttributes(tree,list);
  MC_CHECK((int) GetNumberOfNodesInSplayTree(list) == n,"%s node %d has %d attributes, %d expected",when,i,
    (int) GetNumberOfNodesInSplayTree(list),n);
  list=DestroySplayTree(list);
}

/* tree is node i of the model; links of its children too */
static void compare(XMLTreeInfo *tree,int i,const char *when,int handles)
{
  XMLTreeInfo *child;
  int j,k;
  static const char *const tags[]={ "a","b","c" };
  if (!same(GetXMLTreeTag(tree),model[i].tag))
    mc_fail("%s node %d is %s, %s expected",when,i,GetXMLTreeTag(tree),model[i].tag);
  if (!same(GetXMLTreeContent(tree),model[i].content))
    mc_fail("%s the content of node %d is \"%s\", \"%s\" expected",when,i,GetXMLTreeContent(tree),model[i].content);
  attributes(tree,i,when);
  child=GetXMLTreeChild(tree,NULL);
  for (j=0; j < model[i].children; j++)
  {
    if (child == NULL)
      mc_fail("%s child %d of node %d is missing",when,j,i);
    if (handles && child != model[model[i].child[j]].tree)
      mc_fail("%s child %d of node %d is another one",when,j,i);
    compare(child,model[i].child[j],when,handles);
    child=GetXMLTreeOrdered(child);
  }
  MC_CHECK(child == NULL,"%s node %d has too many children",when,i);
  for (k=0; k < 3; k++)
  {
    XMLTreeInfo *ordered=GetXMLTreeChild(tree,NULL);
    child=GetXMLTreeChild(tree,tags[k]);
    for (j=0; j < model[i].children; j++, ordered=GetXMLTreeOrdered(ordered))
      if (strcmp(model[model[i].child[j]].tag,tags[k]) == 0)
        {
          MC_CHECK(child == ordered,"%s a child named %s of node %d is not found in its place",when,tags[k],i);
          child=GetNextXMLTreeTag(child);
        }
    MC_CHECK(child == NULL,"%s node %d has too many children named %s",when,i,tags[k]);
  }
  {
    /* each tag is met once among the siblings */
    int seen[3]={ 0,0,0 },expected[3]={ 0,0,0 },n=0;
    for (j=0; j < model[i].children; j++)
      for (k=0; k < 3; k++)
        if (strcmp(model[model[i].child[j]].tag,tags[k]) == 0)
          expected[k]=1;
    for (child=GetXMLTreeChild(tree,NULL); child != NULL && n < 20; child=GetXMLTreeSibling(child), n++)
      for (k=0; k < 3; k++)
        if (same(GetXMLTreeTag(child),tags[k]))
          seen[k]++;
    for (k=0; k < 3; k++)
      MC_CHECK(seen[k] == expected[k],"%s %s is met %d times among the siblings below node %d",when,tags[k],seen[k],i);
  }
}

static void check(int root)
{
  char *xml,*copy,*again;
  ExceptionInfo *exception;
  XMLTreeInfo *tree,*path;
  int j,k;
  compare(model[root].tree,root,"after the edit",1);
  /* a path of two tags */
  for (j=0; j < model[root].children && strcmp(model[model[root].child[j]].tag,"a") != 0; j++);
  path=NULL;
  if (j < model[root].children)
    {
      int a=model[root].child[j];
      for (k=0; k < model[a].children && strcmp(model[model[a].child[k]].tag,"b") != 0; k++);
      if (k < model[a].children)
        path=model[model[a].child[k]].tree;
    }
  MC_CHECK(GetXMLTreePath(model[root].tree,"a/b") == path,"the path a/b leads to another node");
  xml=XMLTreeInfoToXML(model[root].tree);
  MC_CHECK(xml != NULL,"the tree is not written");
  if (mc_noting())
    mc_note("  %s\n",xml);
  copy=malloc(strlen(xml)+1);
  strcpy(copy,xml);
  exception=AcquireExceptionInfo();
  tree=NewXMLTree(copy,exception);
  MC_CHECK(tree != NULL && GetExceptionSeverity(exception) == UndefinedException,
    "the written tree is not well formed:\n%s",copy);
  compare(tree,root,"written and parsed,",0);
  again=XMLTreeInfoToXML(tree);
  MC_CHECK(same(again,xml),"written, parsed and written again it is\n%s\ninstead of\n%s",again,xml);
  mc_observe(xml,strlen(xml));
  free(copy);
  again=DestroyString(again);
  xml=DestroyString(xml);
  tree=DestroyXMLTree(tree);
  exception=DestroyExceptionInfo(exception);
}

/* places the content may be divided at: characters are not cut */
static size_t place(int i,int which)
{
  size_t n=strlen(model[i].content),k=which == 0 ? 0 : which == 1 ? 1 : which == 2 ? n : n+2;
  if (k < n && (model[i].content[k] & 0xc0) == 0x80)
    k++;
  return(k);
}

static int start(void)
{
  static const char *const text[]={ "<r>t<a x=\"1\"/>u<b/>v<a>w</a></r>","<r><a/><b/><a y='2'><b>z</b></a></r>" };
  ExceptionInfo *exception;
  XMLTreeInfo *p;
  int root,which=mc_choose(3,"start"),i;
  count=0;
  if (which == 0)
    return(create("r",NewXMLTreeTag("r")));
  exception=AcquireExceptionInfo();
  p=NewXMLTree(text[which-1],exception);
  exception=DestroyExceptionInfo(exception);
  root=create("r",p);
  p=GetXMLTreeChild(p,NULL);
  i=create("a",p);
  insert(root,i,which == 1 ? 1 : 0);
  model[i].attribute[0]=which == 1 ? "1" : NULL;
  p=GetXMLTreeOrdered(p);
  i=create("b",p);
  insert(root,i,which == 1 ? 2 : 0);
  p=GetXMLTreeOrdered(p);
  i=create("a",p);
  insert(root,i,which == 1 ? 3 : 0);
  model[root].content=which == 1 ? "tuv" : "";
  if (which == 1)
    model[i].content="w";
  else
    {
      int b;
      model[i].attribute[1]="2";
      b=create("b",GetXMLTreeChild(p,NULL));
      model[b].content="z";
      insert(i,b,0);
    }
  return(root);
}

static void step(int root)
{
  static const char *const tags[]={ "a","b","c" };
  static const char *const values[]={ "","1","<&\"'>\n\t \r]]>%s" };
  static const char *const contents[]={ "","pq","&lt;<>\"\r\n%d","\303\251\342\202\254","&" };
  int live[NODES],n=0,i,k,op,t;
  size_t offset;
  XMLTreeInfo *p;
  for (i=0; i < count; i++)
    if (model[i].used)
      live[n++]=i;
  i=live[mc_choose(n,"node")];
  op=mc_choose(i == root ? 5 : 7,"edit");
  switch (op)
  {
    case 0: default:
      if (count == NODES)
        mc_skip();
      t=mc_choose(mc_thorough() ? 3 : 2,"tag");
      offset=place(i,mc_choose(mc_thorough() ? 4 : 3,"place"));
      mc_note("add %s to node %d at %zu\n",tags[t],i,offset);
      p=AddChildToXMLTree(model[i].tree,tags[t],offset);
      MC_CHECK(p != NULL,"no child is added");
      insert(i,create(tags[t],p),offset);
      break;
    case 1:
      k=mc_choose(2,"attribute");
      t=3-mc_choose(mc_thorough() ? 4 : 3,"value");
      mc_note("attribute %s of node %d: %s\n",names[k],i,t < 3 ? values[t] : "(removed)");
      p=SetXMLTreeAttribute(model[i].tree,names[k],t < 3 ? values[t] : NULL);
      MC_CHECK(p == model[i].tree,"setting an attribute returns another node");
      model[i].attribute[k]=t < 3 ? values[t] : NULL;
      break;
    case 2:
      t=mc_choose(mc_thorough() ? 5 : 4,"content");
      mc_note("content of node %d: %s\n",i,contents[t]);
      /* children keep their places, which may lie behind the new content or in a character */
      for (k=0; k < model[i].children; k++)
        if (model[model[i].child[k]].offset > 0 && (contents[t][0] & 0x80) != 0)
          mc_skip();
      (void) SetXMLTreeContent(model[i].tree,contents[t]);
      model[i].content=contents[t];
      break;
    case 3: case 4:
      /* a path below this node */
      {
        int at=i,c;
        if (count+2 > NODES)
          mc_skip();
        mc_note("add the path %s to node %d\n",op == 3 ? "a/b" : "b",i);
        p=AddPathToXMLTree(model[i].tree,op == 3 ? "a/b" : "b",0);
        MC_CHECK(p != NULL,"no path is added");
        for (t=op == 3 ? 0 : 1; t < 2; t++)
        {
          for (c=0; c < model[at].children && strcmp(model[model[at].child[c]].tag,tags[t]) != 0; c++);
          if (c < model[at].children)
            at=model[at].child[c];
          else
            {
              XMLTreeInfo *q=t == 1 ? p : GetXMLTreeChild(model[at].tree,tags[t]);
              k=create(tags[t],q);
              insert(at,k,0);
              at=k;
            }
        }
        MC_CHECK(model[at].tree == p,"the path leads to another node");
      }
      break;
    case 5:
      mc_note("remove node %d\n",i);
      p=PruneTagFromXMLTree(model[i].tree);
      MC_CHECK(p == model[i].tree,"another node is removed");
      detach(i);
      forget(i);
      p=DestroyXMLTree(p);
      break;
    case 6:
      /* move it: not below itself */
      k=live[mc_choose(n,"to")];
      for (t=k; t >= 0 && t != i; t=model[t].parent);
      if (t == i)
        mc_skip();
      offset=place(k,mc_choose(3,"place"));
      mc_note("move node %d to node %d at %zu\n",i,k,offset);
      p=PruneTagFromXMLTree(model[i].tree);
      detach(i);
      p=InsertTagIntoXMLTree(model[k].tree,p,offset);
      insert(k,i,offset);
      break;
  }
  mc_transition();
}

static void body(void)
{
  int root=start(),n=mc_choose(mc_thorough() ? 4 : 3,"edits")+1,i;
  for (i=0; i < n; i++)
    step(root);
  check(root);
  model[root].tree=DestroyXMLTree(model[root].tree);
  mc_nontrivial();
}

const char *__asan_default_options(void)
{
  return("quarantine_size_mb=1");
}

static const mc_harness h=
{
  .property="C32",.name="xml_edit",.rule="every sequence of edits of a tree, its links and its written form",
  .body=body
};

int main(int argc,char **argv)
{
  return(mc_main(argc,argv,&h));
}
