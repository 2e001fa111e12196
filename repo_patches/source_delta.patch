From fc4dd0334e6362f3d85f4e3a4b03e480ff84d830 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:31:55 +0000
Subject: [PATCH 01/39] fix: a primitive followed by '}' or ']' kept the
 terminator in its text

The length was measured from the previous token instead of the primitive's
own first character, so {"a":1} yielded 1}.
---
 JSONQuery/lexing.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index ee95f2e..83ae28e 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -172,13 +172,9 @@ Token nextToken(Lexer* lexer)
                     case ' ':
                     case '\t':
                    	{
-                        int tempcount = p-start;
-                        templen = tempcount; 
-                        if(p[0]=='"')
-                            substring_in_place(sub1, start, 1 ,tempcount); 
-                        else if(token_pointer[tempcount-1]==',') 
-                            substring_in_place(sub1, token_pointer, 0, tempcount-1);
-                        else substring_in_place(sub1, token_pointer, 0, tempcount);
+                        //the primitive spans from token_pointer up to (not including) its terminator
+                        templen = p-token_pointer;
+                        substring_in_place(sub1, token_pointer, 0, templen);
                         strcopy(sub1,lexer->content);
                         token_len = p - start + 1;
                         token_pointer = start + token_len;
-- 
2.43.0


From 2e3d4553504ad2a9bbe5f77578e28dbf132e2fbf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:31:55 +0000
Subject: [PATCH 02/39] fix: a primitive followed by a line break kept it in
 its text

Carriage return and line feed end an unquoted primitive like blank and tab do.
---
 JSONQuery/lexing.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index 83ae28e..c436528 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -171,6 +171,8 @@ Token nextToken(Lexer* lexer)
                     case ',':
                     case ' ':
                     case '\t':
+                    case '\n':
+                    case '\r':
                    	{
                         //the primitive spans from token_pointer up to (not including) its terminator
                         templen = p-token_pointer;
-- 
2.43.0


From 17068019d0ddf8990f028883f9aaaa393d9bb002 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:31:55 +0000
Subject: [PATCH 03/39] fix: negative numbers lost their sign

---
 JSONQuery/lexing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index c436528..999d905 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -86,7 +86,7 @@ Token nextToken(Lexer* lexer)
                         state = 0;
                         break;
                     default: //it might be a single primitive
-                        if((*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z')) state=2;
+                        if(*p=='-'||(*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z')) state=2;
                         else
                         {
                             token_len = p - start + 1;
-- 
2.43.0


From 68b8b72a31698811dc94966ffaa2e4868c0fd3a8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:31:55 +0000
Subject: [PATCH 04/39] fix: the documented [index] operator was dropped from
 the query

$.a[2] was compiled as $.a and $.a[2].b as $.a.b.
---
 DFABuilder/src/dfa_builder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index ffa8f92..7eac1ba 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -246,6 +246,14 @@ struct StackContext {
                     array_range[model->size()-1] = {begin, end};
                     break;
                 }
+                // [index]
+                case jnt_number: {
+                    int begin = p->number, end = begin + 1;
+                    push({set_array_index, begin, end});
+                    create_dfa();
+                    array_range[model->size()-1] = {begin, end};
+                    break;
+                }
                 // [*]
                 case jnt_wildcard: {
                     push({set_array_all});
-- 
2.43.0


From 16b6a8e3ca1d1df1ff4d98a37a972d4a7247924f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 05/39] fix: leading blanks of a stream shifted every object
 and array result

---
 JSONQuery/utility.c | 196 ++++++++++++++++++++++----------------------
 1 file changed, 97 insertions(+), 99 deletions(-)

diff --git a/JSONQuery/utility.c b/JSONQuery/utility.c
index 2bf6487..3f3ba8d 100644
--- a/JSONQuery/utility.c
+++ b/JSONQuery/utility.c
@@ -1,99 +1,97 @@
-#include <stdio.h>
-#include <string.h>
-#include <stdlib.h>
-#include "utility.h"
-
-/*************************************************
-Function: void strcopy(char* src,char* dest)
-Description: similar as strcpy
-*************************************************/
-void strcopy(char* src,char* dest)
-{
-	int length=strlen(src);
-	int i;
-	for(i=0;i<=length;i++)
-	{
-		dest[i]=src[i];
-	}
-	dest[i]='\0';
-}
-
-/**************************************************************************
-Function: char* substring(char *pText, int begin, int end);
-Description: print the substring of the original string
-Input: pText--the original string; begin--start position; end--end position;
-Return: the final string
-***************************************************************************/
-char* substring(char *pText, int begin, int end)
-{
-    int i,j;
-    char * temp=pText;
-    temp = ltrim(pText);
-    char* temp1=NULL; 
-    temp1=(char*)malloc((end-begin+1)*sizeof(char));
-    for (j = 0,i = begin; i < end; i++,j++)
-    {
-        temp1[j]=temp[i];
-    }
-    temp1[j]='\0';
-    return temp1;
-}
-
-/***************************************************************************************************
-Function: char* substring_in_place(char* desc, char *pText, int begin, int end);
-Description: save the substring of pText into a destination string
-Input: desc -- the destination; pText--the original string; begin--start position; end--end position;
-****************************************************************************************************/
-void substring_in_place(char* desc, char *pText, int begin, int end)
-{
-    int i,j;
-    char * temp=pText;
-    temp = ltrim(pText);
-    for (j = 0,i = begin; i < end; i++,j++)
-    {
-        desc[j]=temp[i];
-    }
-    desc[j]='\0'; 
-}
-
-/******************************************************************************
-Function: char* allocate_and_copy(char *pText);
-Description: allocate new memory spaces and copy the content of original string
-Input: pText--the original string; 
-Return: the new string
-******************************************************************************/
-char* allocate_and_copy(char* pText)
-{
-    char* new = (char*)malloc((strlen(pText)+2)*sizeof(char)); 
-    strcopy(pText, new);
-    return new;
-}
-
-/*************************************************
-Function: char * ltrim(char *s);
-Description: remove the left blankets of a string
-Input: s--the original string; 
-Return: the final substring
-*************************************************/
-char * ltrim(char *s)
-{
-     char *temp;
-     temp = s;
-     while((*temp == ' ')&&temp){*temp++;}
-     return temp;
-}
-
-/*************************************************
-Function: int left_null_count(char *s);
-Description: calculate the number of blanket for each string
-Input: s--the original string; 
-Return: the number of blanket for each string
-*************************************************/
-int left_null_count(char *s)  
-{
-	 int count=0;
-     char *temp;
-     temp = s;
-     while((*temp == ' ')&&temp){*temp++; count++;}
-     return count;
-}
+#include <stdio.h>
+#include <string.h>
+#include <stdlib.h>
+#include "utility.h"
+
+/*************************************************
+Function: void strcopy(char* src,char* dest)
+Description: similar as strcpy
+*************************************************/
+void strcopy(char* src,char* dest)
+{
+	int length=strlen(src);
+	int i;
+	for(i=0;i<=length;i++)
+	{
+		dest[i]=src[i];
+	}
+	dest[i]='\0';
+}
+
+/**************************************************************************
+Function: char* substring(char *pText, int begin, int end);
+Description: print the substring of the original string
+Input: pText--the original string; begin--start position; end--end position;
+Return: the final string
+***************************************************************************/
+char* substring(char *pText, int begin, int end)
+{
+    int i,j;
+    char * temp=pText;
+    char* temp1=NULL; 
+    temp1=(char*)malloc((end-begin+1)*sizeof(char));
+    for (j = 0,i = begin; i < end; i++,j++)
+    {
+        temp1[j]=temp[i];
+    }
+    temp1[j]='\0';
+    return temp1;
+}
+
+/***************************************************************************************************
+Function: char* substring_in_place(char* desc, char *pText, int begin, int end);
+Description: save the substring of pText into a destination string
+Input: desc -- the destination; pText--the original string; begin--start position; end--end position;
+****************************************************************************************************/
+void substring_in_place(char* desc, char *pText, int begin, int end)
+{
+    int i,j;
+    char * temp=pText;
+    for (j = 0,i = begin; i < end; i++,j++)
+    {
+        desc[j]=temp[i];
+    }
+    desc[j]='\0'; 
+}
+
+/******************************************************************************
+Function: char* allocate_and_copy(char *pText);
+Description: allocate new memory spaces and copy the content of original string
+Input: pText--the original string; 
+Return: the new string
+******************************************************************************/
+char* allocate_and_copy(char* pText)
+{
+    char* new = (char*)malloc((strlen(pText)+2)*sizeof(char)); 
+    strcopy(pText, new);
+    return new;
+}
+
+/*************************************************
+Function: char * ltrim(char *s);
+Description: remove the left blankets of a string
+Input: s--the original string; 
+Return: the final substring
+*************************************************/
+char * ltrim(char *s)
+{
+     char *temp;
+     temp = s;
+     while((*temp == ' ')&&temp){*temp++;}
+     return temp;
+}
+
+/*************************************************
+Function: int left_null_count(char *s);
+Description: calculate the number of blanket for each string
+Input: s--the original string; 
+Return: the number of blanket for each string
+*************************************************/
+int left_null_count(char *s)  
+{
+	 int count=0;
+     char *temp;
+     temp = s;
+     while((*temp == ' ')&&temp){*temp++; count++;}
+     return count;
+}
-- 
2.43.0


From 43f3f741c1147c1865e81defb6f1e7b61b608bfd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:38:09 +0000
Subject: [PATCH 06/39] fix: keys and primitives longer than 4000 bytes
 overflowed the lexer's buffer

---
 JSONQuery/lexing.c | 15 ++++-----------
 JSONQuery/lexing.h |  5 ++---
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index 999d905..c1df00f 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -5,8 +5,6 @@
 #include "utility.h"
 #include "lexing.h"
 
-#define MAX_PRIMITIVE 40000
-
 Token nextToken(Lexer* lexer)
 {
     char* start = lexer->current_pointer; 
@@ -19,7 +17,6 @@ Token nextToken(Lexer* lexer)
     char* token_pointer = p; 
     int tempcount;
     Token token;
-    char sub1[MAX_PRIMITIVE];
     for (; p < end; p++)
     {   
         switch(state)
@@ -115,7 +112,7 @@ Token nextToken(Lexer* lexer)
                         //string is found 
                         tempcount = p-start;
                         templen = tempcount; 
-                        substring_in_place(sub1, start , 1, tempcount);     
+                        char* text = start;
                         token_len = p - start + 1;
                         token_pointer = start + token_len;
                         start = token_pointer;
@@ -129,7 +126,7 @@ Token nextToken(Lexer* lexer)
                         } 
                         if(*(p+1)==':') //it is a key field
                         {
-                            strcopy(sub1,lexer->content);
+                            substring_in_place(lexer->content, text, 1, tempcount);
                             token_len = p - start+1;
                             token_pointer = start + token_len;
                             lexer->current_start = lexer->current_pointer+1; 
@@ -143,10 +140,7 @@ Token nextToken(Lexer* lexer)
                         }
                         else //primitive value
                         {
-                            lexer->content[0]='"';
-                            strcopy(sub1, lexer->content+1);
-                            lexer->content[strlen(lexer->content)]='"'; 
-                            lexer->content[strlen(lexer->content)+1]='\0'; 
+                            substring_in_place(lexer->content, text, 0, tempcount+1);
                             lexer->current_start = lexer->current_pointer+1; 
                             lexer->lex_state = 0; 
                             lexer->next_start = p+1; 
@@ -176,8 +170,7 @@ Token nextToken(Lexer* lexer)
                    	{
                         //the primitive spans from token_pointer up to (not including) its terminator
                         templen = p-token_pointer;
-                        substring_in_place(sub1, token_pointer, 0, templen);
-                        strcopy(sub1,lexer->content);
+                        substring_in_place(lexer->content, token_pointer, 0, templen);
                         token_len = p - start + 1;
                         token_pointer = start + token_len;
                         lexer->current_pointer = token_pointer;
diff --git a/JSONQuery/lexing.h b/JSONQuery/lexing.h
index 703b90f..100e5cd 100644
--- a/JSONQuery/lexing.h
+++ b/JSONQuery/lexing.h
@@ -15,8 +15,6 @@
 #define ARRAY 9 //[]
 #define END -1  //ends
 
-#define MAX_SIZE_PRIMITIVE 4000
-
 /* structure for tokens */
 typedef struct Lexer{
     char* current_pointer;
@@ -37,7 +35,8 @@ static inline void initLexer(Lexer* lexer, char* json_stream)
     lexer->begin_stream = json_stream;
     lexer->end_stream = json_stream + strlen(json_stream);
     lexer->lex_state = 0;
-    lexer->content = (char*)malloc(MAX_SIZE_PRIMITIVE*sizeof(char));
+    //no symbol is longer than the stream itself
+    lexer->content = (char*)malloc((strlen(json_stream)+1)*sizeof(char));
 }
 
 static inline void destroyLexer(Lexer* lexer)
-- 
2.43.0


From f181c53e7ee2787129f9bc8dbd41b2fd5a7a9fbf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:38:09 +0000
Subject: [PATCH 07/39] fix: a line break between a key and its colon turned
 the key into a value

---
 JSONQuery/lexing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index c1df00f..7cd2d1f 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -117,7 +117,7 @@ Token nextToken(Lexer* lexer)
                         token_pointer = start + token_len;
                         start = token_pointer;
 
-                        while(*(p+1)==' '||*(p+1)=='\t') //ignore space
+                        while(*(p+1)==' '||*(p+1)=='\t'||*(p+1)=='\n'||*(p+1)=='\r') //ignore space
                         {
                             p++;
                             token_len = p - start + 1;
-- 
2.43.0


From 3c875bc9c097f6903bc0453b7673543219f79343 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:38:46 +0000
Subject: [PATCH 08/39] fix: results of 1000 bytes or more, and more than
 800000 results, overflowed the result lists

---
 JSONQuery/output.h                      | 30 +++++++++++--------
 JSONQuery/parallel_automata_execution.h |  7 +++--
 JSONQuery/tuple_list.h                  | 39 ++++++++++++++++++++-----
 3 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/JSONQuery/output.h b/JSONQuery/output.h
index d2bed6a..cf8196a 100644
--- a/JSONQuery/output.h
+++ b/JSONQuery/output.h
@@ -1,33 +1,30 @@
 #ifndef __OUTPUT_H__
 #define __OUTPUT_H__
 
+#include <stdlib.h>
 #include "utility.h"
 
-#define MAX_OUTPUT 800000 //290000
-#define MAX_STRING 1000
+#define INIT_OUTPUT 1000  //initial capacity of an output list
 
 typedef struct Output{
     char** element;
     int count;
+    int capacity;
 }Output;
 
 static inline void initOutput(Output* output)
 {
-    output->element = (char**)malloc(MAX_OUTPUT*sizeof(char*));
-    int i;
-    for(i=0; i<MAX_OUTPUT; i++)
-    {
-        output->element[i] = (char*)malloc(MAX_STRING*sizeof(char));
-    }
+    output->capacity = INIT_OUTPUT;
+    output->element = (char**)malloc(output->capacity*sizeof(char*));
     output->count = -1;
 }
 
 static inline void destroyOutput(Output* output)
 {
     int i;
-    for(i=0; i<MAX_OUTPUT; i++)
+    for(i=0; i<=output->count; i++)
     {
-        if(output->element[i]!=NULL) free(output->element[i]);
+        free(output->element[i]);
     }
     free(output->element);
 }
@@ -48,7 +45,12 @@ static inline void freeOutput(Output* output)
 static inline void addOutputElement(Output* output, char* text)
 {
     int index = (++output->count);
-    strcopy(text, output->element[index]); //printf("text %s %d\n", text, index);
+    if(index>=output->capacity)
+    {
+        output->capacity *= 2;
+        output->element = (char**)realloc(output->element, output->capacity*sizeof(char*));
+    }
+    output->element[index] = allocate_and_copy(text);
 }
 
 static inline char* getOutputElement(Output* output, int index)
@@ -58,7 +60,11 @@ static inline char* getOutputElement(Output* output, int index)
 
 static inline void removeOutputElement(Output* output, int number)
 {
-    output->count-=number; 
+    int i;
+    for(i=0; i<number; i++)
+    {
+        free(output->element[output->count--]);
+    }
 }
 
 static inline int getOutputSize(Output* output)
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 0419465..1fbac0c 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -318,7 +318,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 //check array indexes
                 if(!(lower==0&&upper==0))
                 {
-                    if(strcmp(tuple.text, "}")==0||strcmp(tuple.text, "]")==0) { 
+                    if(tuple.text!=NULL && (strcmp(tuple.text, "}")==0||strcmp(tuple.text, "]")==0)) { 
                         qs.node[qs_elt.start].count++; 
                         if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0; 
                         continue;
@@ -338,8 +338,9 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     addTuple(tuple_list, tuple.state, tuple.text);
                 else
                 {   
-                    substring_in_place(tuple.text, thread_info[i].input_stream, tuple.start_position, tuple.end_position); 
-                    addTuple(tuple_list, tuple.state, tuple.text); 
+                    char* object_text = substring(thread_info[i].input_stream, tuple.start_position, tuple.end_position); 
+                    addTuple(tuple_list, tuple.state, object_text); 
+                    free(object_text);
                 }
                 sum++;
             }
diff --git a/JSONQuery/tuple_list.h b/JSONQuery/tuple_list.h
index 4eab925..4eff1a2 100644
--- a/JSONQuery/tuple_list.h
+++ b/JSONQuery/tuple_list.h
@@ -1,10 +1,10 @@
 #ifndef __TUPLE_LIST_H__
 #define __TUPLE_LIST_H__
 
+#include <stdlib.h>
 #include "utility.h"
 
-#define MAX_TUPLE_LIST 5000000
-#define MAX_TEXT 1000
+#define INIT_TUPLE_LIST 1000  //initial capacity of a tuple list
 
 typedef struct Tuple{
     //starting index for string text
@@ -12,18 +12,21 @@ typedef struct Tuple{
     //ending index for string text
     int end_position;
     int state;
-    char text[MAX_TEXT];
+    //string text, NULL for a virtual tuple
+    char* text;
     int next_index;
 }Tuple;
 
 typedef struct TupleList{
-    Tuple element[MAX_TUPLE_LIST];
+    Tuple* element;
     int count;
+    int capacity;
 }TupleList;
 
 static inline void initTupleList(TupleList* tl)
 {
-    //tl->element = (Tuple*)malloc(MAX_TUPLE_LIST*sizeof(Tuple));
+    tl->capacity = INIT_TUPLE_LIST;
+    tl->element = (Tuple*)malloc(tl->capacity*sizeof(Tuple));
     tl->count = -1;
 }
 
@@ -36,24 +39,44 @@ static inline TupleList* createTupleList()
 
 static inline void freeTupleList(TupleList* tl)
 {
+    int i;
+    for(i = 0; i<=tl->count; i++)
+    {
+        if(tl->element[i].text!=NULL) free(tl->element[i].text);
+    }
+    free(tl->element);
     free(tl);
 }
 
+//get the index of the next available tuple
+static inline int nextTupleIndex(TupleList* tl)
+{
+    int index = (++tl->count);
+    if(index>=tl->capacity)
+    {
+        tl->capacity *= 2;
+        tl->element = (Tuple*)realloc(tl->element, tl->capacity*sizeof(Tuple));
+    }
+    return index;
+}
+
 static inline void addTuple(TupleList* tl, int state, char* text)
 { 
-    int index = (++tl->count);
+    int index = nextTupleIndex(tl);
     tl->element[index].state = state;
     tl->element[index].start_position = -1;
-    strcopy(text, tl->element[index].text); 
+    tl->element[index].end_position = -1;
+    tl->element[index].text = allocate_and_copy(text); 
     tl->element[index].next_index  = -1;
 }
 
 static inline void addVirtualTuple(TupleList* tl, int state, int start_position, int end_position)
 {
-    int index = (++tl->count);
+    int index = nextTupleIndex(tl);
     tl->element[index].state = state;
     tl->element[index].start_position = start_position; 
     tl->element[index].end_position = end_position;
+    tl->element[index].text = NULL;
     tl->element[index].next_index  = -1;
 }
 
-- 
2.43.0


From 67b20155aa5e2a1ef5ecd2d0c9168856084c5461 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 09/39] fix: the stream partitioner split strings and ran past
 the end of the stream

---
 JSONQuery/file_partition.h | 37 ++++++++++++++++++++++++++++++++++++
 JSONQuery/path_processor.h | 39 +++++++++++---------------------------
 2 files changed, 48 insertions(+), 28 deletions(-)

diff --git a/JSONQuery/file_partition.h b/JSONQuery/file_partition.h
index bb23eb0..eae13e9 100644
--- a/JSONQuery/file_partition.h
+++ b/JSONQuery/file_partition.h
@@ -9,6 +9,43 @@ typedef struct PartitionInfo
     int num_chunk;
 }PartitionInfo;
 
+//tracks the position inside JSON tokens while walking through a stream byte by byte
+typedef struct TokenScanner
+{
+    int in_string;   //inside a string
+    int escaped;     //preceded by an unpaired backslash
+    char last;       //the last non-blank byte outside of strings
+}TokenScanner;
+
+static inline void initTokenScanner(TokenScanner* ts)
+{
+    ts->in_string = 0;
+    ts->escaped = 0;
+    ts->last = '\0';
+}
+
+//whether a new chunk could start from the next byte (the beginning of a complete string token)
+static inline int startsToken(TokenScanner* ts, char ch)
+{
+    return ch=='"' && !ts->in_string && (ts->last==','||ts->last=='{'||ts->last=='[');
+}
+
+//move over the next byte
+static inline void scanByte(TokenScanner* ts, char ch)
+{
+    if(ts->in_string)
+    {
+        if(ts->escaped) ts->escaped = 0;
+        else if(ch=='\\') ts->escaped = 1;
+        else if(ch=='"') ts->in_string = 0;
+    }
+    else if(ch!=' '&&ch!='\t'&&ch!='\n'&&ch!='\r')
+    {
+        if(ch=='"') ts->in_string = 1;
+        ts->last = ch;
+    }
+}
+
 //partitioned intput stream into several chunks
 PartitionInfo partitionFile(char* file_name, int num_core);
 
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 4da0a57..b4ec06b 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -102,47 +102,30 @@ PartitionInfo partitionInputStream(char* input_stream, int num_core)
     for(i = 0; i<num_core; i++)
         stream[i] = NULL;
     long sum_size = 0;   //the number of bytes that have been processed
-    char ch = -1; 
+    TokenScanner scanner;
+    initTokenScanner(&scanner);
     for(i = 0; i<num_core-1; i++)
     {   
-        stream[i] = (char*)malloc((chunk_size+MAX_EXTENSION)*sizeof(char)); 
-        substring_in_place(stream[i], input_stream, sum_size, sum_size+chunk_size);
-        sum_size += chunk_size; 
-        int add = 0;
+        long end = sum_size;
         //look for the next complete token
-        while(sum_size<=stream_size)
+        while(end<stream_size)
         {    
-            ch = input_stream[sum_size+add];
-            if(ch=='"')
-            {
-                char prev = stream[i][chunk_size+add-1];
-                int t = 1;
-                while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-                {
-                    prev = stream[i][chunk_size+add-t]; 
-                    t++;
-                }
-                if(prev==','||prev=='{'||prev=='[')
-                {
-                    stream[i][chunk_size+add] = ch;
-                    break;
-                }
-            }
-            stream[i][chunk_size+add] = ch; 
-            add = add+1;
+            char ch = input_stream[end];
+            if(end>=sum_size+chunk_size && startsToken(&scanner, ch)) break;
+            scanByte(&scanner, ch);
+            end++;
         }
-        stream[i][chunk_size+add] = '\0'; 
-        sum_size += add;
+        stream[i] = substring(input_stream, sum_size, end);
+        sum_size = end;
         if((sum_size+chunk_size)>=stream_size) {i++; break;}
     } 
     pInfo.num_chunk = i;
     long remain_size = stream_size-sum_size;
-    if(remain_size>0)
+    if(remain_size>0 || i==0)
     {
         stream[i] = substring(input_stream, sum_size, stream_size);
         pInfo.num_chunk = i+1;
     }
-    pInfo.num_chunk = i+1;
     pInfo.stream = stream;
     printf("stream partitioner: finish splitting the input stream\n");
     return pInfo;
-- 
2.43.0


From e2acac1f696f2de872093680aec8e3a730469a3b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:39:58 +0000
Subject: [PATCH 10/39] fix: the bounded loader split strings and overflowed
 its buffer on long tokens

---
 JSONQuery/path_processor.h | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index b4ec06b..e2310bc 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -55,27 +55,25 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
         size = MEMORY_FOOTPRINT;
     if(size<=0) return NULL;    
     fseek(fp, loaded_size, SEEK_CUR);
-    char* stream =(char*)malloc((size+MAX_EXTENSION)*sizeof(char));
-    fread(stream,1,size,fp);
+    int capacity = size+MAX_EXTENSION;
+    char* stream =(char*)malloc(capacity*sizeof(char));
+    size=fread(stream,1,size,fp);
+    TokenScanner scanner;
+    initTokenScanner(&scanner);
+    int i;
+    for(i = 0; i<size; i++) scanByte(&scanner, stream[i]);
     int add = 0;
     //look for the next complete token
-    char ch = fgetc(fp);
+    int ch = fgetc(fp);
     while(1)
     {    
         if(ch==EOF) break;
-        if(ch=='"')
+        if(startsToken(&scanner, ch)) break;
+        scanByte(&scanner, ch);
+        if(size+add+1>=capacity)
         {
-            char prev = stream[size+add-1];
-            int t = 1;
-            while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-            {
-                prev = stream[size+add-t]; 
-                t++;
-            }
-            if(prev==','||prev=='{'||prev=='[')
-            {
-                break;
-            }
+            capacity *= 2;
+            stream = (char*)realloc(stream, capacity*sizeof(char));
         }
         stream[size+add] = ch; 
         add = add+1;
-- 
2.43.0


From 8fccb6a1fe0998dbf9b55e4cedb8c634b57adc6e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 11/39] fix: the file partitioner split strings, overflowed its
 buffers and leaked the file

---
 JSONQuery/file_partition.c | 77 ++++++++++----------------------------
 1 file changed, 20 insertions(+), 57 deletions(-)

diff --git a/JSONQuery/file_partition.c b/JSONQuery/file_partition.c
index cf8b6fb..5b4491f 100644
--- a/JSONQuery/file_partition.c
+++ b/JSONQuery/file_partition.c
@@ -2,6 +2,7 @@
 
 #include <malloc.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include "utility.h"
 
@@ -11,6 +12,7 @@ PartitionInfo partitionFile(char* file_name, int num_core)
 { 
     PartitionInfo pInfo;
     pInfo.num_chunk = 0;
+    pInfo.stream = NULL;
     char** stream=NULL;
     FILE *fp; 
     long file_size, chunk_size;
@@ -25,71 +27,32 @@ PartitionInfo partitionFile(char* file_name, int num_core)
     int i;
     for(i = 0; i<num_core; i++)
         stream[i] = NULL;
-    long sum_size = 0;   //the number of bytes that have been processed
-    char ch = -1; 
-    for(i = 0; i<num_core-1; i++)
+    TokenScanner scanner;
+    initTokenScanner(&scanner);
+    int ch = fgetc(fp);
+    for(i = 0; i<num_core; i++)
     {
-        stream[i] = (char*)malloc((chunk_size+MAX_EXTENSION)*sizeof(char));
-        if(ch!=-1)
-        {
-            stream[i][0]=ch;
-            stream[i][1]='\0';
-            char * buff=(char*)malloc((chunk_size)*sizeof(char)); 
-            fread (buff,1,chunk_size-1,fp); 
-            buff[chunk_size-1]='\0'; 
-            stream[i]=strcat(stream[i],buff); 
-        }
-        else fread (stream[i],1,chunk_size,fp);
-        int add = 0;
-        //look for the next complete token
-        ch = fgetc(fp);
-        while(1)
+        long capacity = chunk_size+MAX_EXTENSION;
+        long size = 0;
+        stream[i] = (char*)malloc(capacity*sizeof(char));
+        while(ch!=EOF)
         {    
-            if(ch==EOF) break;
-            if(ch=='"')
+            //the last chunk takes all remaining bytes, others end before the next complete token
+            if(i<num_core-1 && size>=chunk_size && startsToken(&scanner, ch)) break;
+            scanByte(&scanner, ch);
+            if(size+1>=capacity)
             {
-                char prev = stream[i][chunk_size+add-1];
-                int t = 1;
-                while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-                {
-                    prev = stream[i][chunk_size+add-t]; 
-                    t++;
-                }
-                if(prev==','||prev=='{'||prev=='[')
-                {
-                    break;
-                }
+                capacity *= 2;
+                stream[i] = (char*)realloc(stream[i], capacity*sizeof(char));
             }
-            stream[i][chunk_size+add] = ch; 
-            add = add+1;
+            stream[i][size++] = ch; 
             ch = fgetc(fp);
         }
-        stream[i][chunk_size+add] = '\0'; 
-        sum_size += (chunk_size+add);
-        if((sum_size+chunk_size)>=file_size) {i++; break;}
-    }
-    pInfo.num_chunk = i;
-    long remain_size = file_size-sum_size;
-    if(remain_size>0)
-    {
-        stream[i] = (char*)malloc((remain_size)*sizeof(char));
-        if(ch!=-1)
-        {
-            stream[i][0]=ch;
-            stream[i][1]='\0';
-            char* buff=(char*)malloc(remain_size*sizeof(char));
-            fread (buff,1,remain_size-1,fp);
-            buff[remain_size-1]='\0';
-            stream[i]=strcat(stream[i],buff);
-            stream[i][remain_size] = '\0'; 
-        }
-        else{
-            fread (stream[i],1,remain_size,fp);
-            stream[i][remain_size] = '\0';
-        }
+        stream[i][size] = '\0'; 
         pInfo.num_chunk = i+1;
+        if(ch==EOF) break;
     }
-    pInfo.num_chunk = i+1;
+    fclose(fp);
     pInfo.stream = stream;
     printf("file partitioner: finish splitting the input stream\n");
     return pInfo;
-- 
2.43.0


From c67bcb365b4f57037edd2d05e03262b42850aad0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:40:48 +0000
Subject: [PATCH 12/39] fix: running on a missing or empty file, and several
 uninitialised fields, led to undefined behaviour

---
 JSONQuery/parallel_automata_execution.h | 1 +
 JSONQuery/path_processor.h              | 7 +++++++
 JSONQuery/streaming_automaton.h         | 1 +
 JSONQuery/unit.h                        | 1 +
 JSONQuery/worker_automaton.h            | 7 ++-----
 5 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 1fbac0c..5c3e48b 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -46,6 +46,7 @@ static inline void initParallelAutomata(ParallelAutomata* pa, JSONQueryDFA* qa)
     pa->query_automaton = qa;
     pa->tuple_list = NULL;
     pa->major_automaton = NULL;
+    pa->finish_flag = INPROGRESS;
 }
 
 static inline void destroyParallelAutomata(ParallelAutomata* pa)
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index e2310bc..b4e97af 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -163,6 +163,13 @@ static inline void initStreamingContext(StreamingContext* ci)
 {
     ci->context_flag = NOCONTEXT;
     ci->finish_flag = INPROGRESS;
+    ci->sa.tuple_list = NULL;
+    ci->pa.tuple_list = NULL;
+    ci->pa.major_automaton = NULL;
+    ci->pf.buffer = NULL;
+    int i;
+    for(i = 0; i<MAX_PREDICATE_STATE; i++)
+        ci->pf.predicate_conditions[i] = NULL;
 }
 
 static inline void destroyStreamingContext(StreamingContext* ci)
diff --git a/JSONQuery/streaming_automaton.h b/JSONQuery/streaming_automaton.h
index 58eac63..12613e6 100644
--- a/JSONQuery/streaming_automaton.h
+++ b/JSONQuery/streaming_automaton.h
@@ -44,6 +44,7 @@ static inline void initStreamingAutomaton(StreamingAutomaton* sa, JSONQueryDFA*
     //by default don't generate any data constraints
     sa->constraint_flag = CLOSE;
     sa->constraint_table = NULL;
+    sa->finish_flag = INPROGRESS;
 }
 
 static inline void destroyStreamingAutomaton(StreamingAutomaton* sa)
diff --git a/JSONQuery/unit.h b/JSONQuery/unit.h
index d54d9e7..cf7669c 100644
--- a/JSONQuery/unit.h
+++ b/JSONQuery/unit.h
@@ -52,6 +52,7 @@ static inline void initUnit(Unit* unit)
     unit->count_start_states = -1;
     unit->count_unmatched_symbols = -1;
     unit->num_root = -1;
+    unit->unit_state = UNIT_UNMATCHED;
     unit->has_pruned = UNPRUNED;
     unit->start = NULL;
     unit->end = NULL;
diff --git a/JSONQuery/worker_automaton.h b/JSONQuery/worker_automaton.h
index 4a38b49..7b27532 100644
--- a/JSONQuery/worker_automaton.h
+++ b/JSONQuery/worker_automaton.h
@@ -71,12 +71,9 @@ static inline WorkerAutomaton* createWorkerAutomaton(JSONQueryDFA* qa, int threa
     WorkerAutomaton* wa = (WorkerAutomaton*)malloc(sizeof(WorkerAutomaton));
     wa->id = thread_id;
     initWorkerAutomaton(wa, qa);
+    wa->constraint_table = ct;
     if(ct==NULL) wa->constraint_flag = CLOSE;
-    else
-    {
-        wa->constraint_flag = OPEN;
-        wa->constraint_table = ct;
-    }
+    else wa->constraint_flag = OPEN;
     return wa;
 }
 
-- 
2.43.0


From f4d47442447cac29f41bb29f8b303f679ffe2770 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 13/39] fix: a partial run continued with the freed tuple list
 of the previous run

---
 JSONQuery/parallel_automata_execution.h |  9 ++++++---
 JSONQuery/path_processor.h              | 11 ++++++-----
 JSONQuery/streaming_automaton.h         |  6 +-----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 5c3e48b..f9ff88b 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -51,7 +51,8 @@ static inline void initParallelAutomata(ParallelAutomata* pa, JSONQueryDFA* qa)
 
 static inline void destroyParallelAutomata(ParallelAutomata* pa)
 {
-    if(pa->tuple_list != NULL&&pa->finish_flag==INPROGRESS)
+    //the major automaton shares this tuple list
+    if(pa->tuple_list != NULL)
     {   
         freeTupleList(pa->tuple_list); 
         pa->tuple_list = NULL;
@@ -60,11 +61,13 @@ static inline void destroyParallelAutomata(ParallelAutomata* pa)
     {  
         if(pa->finish_flag==INPROGRESS)
         {
-            pa->major_automaton->tuple_list = createTupleList();
+            pa->tuple_list = createTupleList();
+            pa->major_automaton->tuple_list = pa->tuple_list;
         }
         else if(pa->finish_flag==FINISH)
         {   
-            destroyWorkerAutomaton(pa->major_automaton);  
+            freeWorkerAutomaton(pa->major_automaton);  
+            pa->major_automaton = NULL;
         }
     }
 }
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index b4e97af..4c6685c 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -195,7 +195,6 @@ static inline Output* serialPartialRun(PathProcessor* path_processor, char* inpu
 
     //run streaming automaton
     executeAutomaton(&streaming_automaton, input_stream, CLOSE);
-    ci->sa = streaming_automaton;
 
     //predicate filtering
     PredicateFilter pf;
@@ -207,6 +206,10 @@ static inline Output* serialPartialRun(PathProcessor* path_processor, char* inpu
     //free up dynamic memories
     destroyStreamingAutomaton(&streaming_automaton);
 
+    //the next run continues from the current context with an empty tuple list
+    streaming_automaton.tuple_list = createTupleList();
+    ci->sa = streaming_automaton;
+
     //set context flag
     ci->context_flag = CONTEXT;
     return output;
@@ -268,8 +271,6 @@ static inline Output* parallelPartialRun(PathProcessor* path_processor, char* in
     executeParallelAutomata(&pa, pInfo, NULL);
     TupleList* tl = pa.tuple_list;
 
-    ci->pa = pa;
-
     //predicate filtering
     PredicateFilter pf;
     if(cflag == CONTEXT) { pf = ci->pf; pf.tuple_list = tl;}
@@ -280,6 +281,7 @@ static inline Output* parallelPartialRun(PathProcessor* path_processor, char* in
     //free up dynamic memories
     freeInputChunks(pInfo);
     destroyParallelAutomata(&pa);
+    ci->pa = pa;
     ci->context_flag = CONTEXT;
     return output;
 }
@@ -320,8 +322,6 @@ static inline Output* parallelPartialRunOpt(PathProcessor* path_processor, char*
     executeParallelAutomata(&pa, pInfo, ct);
     TupleList* tl = pa.tuple_list;
 
-    ci->pa = pa;
-
     //predicate filtering
     PredicateFilter pf;
     if(cflag == CONTEXT) { pf = ci->pf; pf.tuple_list = tl;}
@@ -332,6 +332,7 @@ static inline Output* parallelPartialRunOpt(PathProcessor* path_processor, char*
     //free up dynamic memories
     freeInputChunks(pInfo);     
     destroyParallelAutomata(&pa); 
+    ci->pa = pa;
     ci->context_flag = CONTEXT;
     return output;
 }
diff --git a/JSONQuery/streaming_automaton.h b/JSONQuery/streaming_automaton.h
index 12613e6..d2d8739 100644
--- a/JSONQuery/streaming_automaton.h
+++ b/JSONQuery/streaming_automaton.h
@@ -49,15 +49,11 @@ static inline void initStreamingAutomaton(StreamingAutomaton* sa, JSONQueryDFA*
 
 static inline void destroyStreamingAutomaton(StreamingAutomaton* sa)
 {
-    if(sa->tuple_list != NULL && sa->finish_flag == INPROGRESS)
+    if(sa->tuple_list != NULL)
     {   
         freeTupleList(sa->tuple_list); 
         sa->tuple_list = NULL;
     } 
-    if(sa->finish_flag == INPROGRESS)
-    {
-        sa->tuple_list = createTupleList();
-    }
 }
 
 // data_constraint_flag: whether sa needs to generate data constraints
-- 
2.43.0


From 24c8853020092a869b53fbf86830f5ddb253143d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:41:11 +0000
Subject: [PATCH 14/39] fix: memory leaked for every match, chunk and evaluated
 predicate

---
 JSONPathParser/jsonpath_evaluator.h     | 6 +++++-
 JSONQuery/file_partition.h              | 1 +
 JSONQuery/parallel_automata_execution.h | 2 ++
 JSONQuery/predicate.c                   | 1 +
 JSONQuery/predicate.h                   | 3 ++-
 JSONQuery/streaming_automaton.c         | 2 ++
 JSONQuery/worker_automaton.c            | 2 ++
 7 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 3d6be6e..4ec55d3 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -252,7 +252,11 @@ static inline JSONPathValue calculateExpression(ASTNode* node, JSONPathKeyValueP
 static inline bool evaluateExpression(ASTNode* node, PredicateCondition* conditions) {
     JSONPathKeyValuePair* table = createTableFromConditions(conditions);
     JSONPathValue v = calculateExpression(node, table);
-    return computeTypeCast(v).boolean;
+    bool result = computeTypeCast(v).boolean;
+    for (int i = 0; table[i].key != NULL; ++i)
+        if (table[i].value.vtype == jvt_string) free(table[i].value.string);
+    free(table);
+    return result;
 }
 
 
diff --git a/JSONQuery/file_partition.h b/JSONQuery/file_partition.h
index eae13e9..39397c9 100644
--- a/JSONQuery/file_partition.h
+++ b/JSONQuery/file_partition.h
@@ -58,6 +58,7 @@ static inline void freeInputChunks(PartitionInfo pInfo)
     {
         if(stream[i]!=NULL) free(stream[i]);
     }
+    free(stream);
 }
 
 static inline void printChunk(char** stream, int num_core)
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index f9ff88b..07c31c0 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -187,6 +187,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                                 substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
                                 substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
+                                free(object_text);
                                 qs.node[node_index].matched_start = INVALID;
                                 sum++;
                             }
@@ -238,6 +239,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                                 substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
                                 substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
+                                free(object_text);
                                 qs.node[node_index].matched_start = INVALID;
                                 sum++;
                             }
diff --git a/JSONQuery/predicate.c b/JSONQuery/predicate.c
index 2f6e374..0b5454e 100644
--- a/JSONQuery/predicate.c
+++ b/JSONQuery/predicate.c
@@ -91,6 +91,7 @@ Output* generateFinalOutput(PredicateFilter* pf)
             //update value for predicate condition
             if(node!=NULL&&pc[index].name!=NULL)
             {  
+                if(pc[index].text!=NULL) free(pc[index].text);
                 pc[index].text = allocate_and_copy(text); 
             }
             else //add candidate output into buffer
diff --git a/JSONQuery/predicate.h b/JSONQuery/predicate.h
index c750410..57d2305 100644
--- a/JSONQuery/predicate.h
+++ b/JSONQuery/predicate.h
@@ -100,10 +100,11 @@ static inline void destroyPredicateFilter(PredicateFilter* pf)
     {
         if(pf->predicate_conditions[i]!=NULL)
         {    
+            clearPredicateCondtion(pf->predicate_conditions[i]);
             free(pf->predicate_conditions[i]);
         }
     } 
-    if(pf->buffer!=NULL) free(pf->buffer);
+    if(pf->buffer!=NULL) freeOutput(pf->buffer);
 }
 
 Output* generateFinalOutput(PredicateFilter* pf);
diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index cd874a1..52adbf5 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -190,6 +190,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     char* output_text = substring(lexer.begin_stream, qs_elt->matched_start, position);
                     qs_elt->matched_start = INVALID;
                     addTuple(tl, qs_elt->query_state, output_text);
+                    free(output_text);
                 }
                 //syntax stack only has one '{'
                 if(syntaxStackSize(ss) == 1)   
@@ -253,6 +254,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                         char* output_text = substring(lexer.begin_stream, top_qs_elt.matched_start, position); 
                         top_qs_elt.matched_start = INVALID;
                         addTuple(tl, top_qs_elt.query_state, output_text);  
+                        free(output_text);
                     }
                     //syntax stack only has one '['
                     if(syntaxStackSize(ss) == 1)  
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 9a6cfbb..23dcad7 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -228,6 +228,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                     if(wa->id==0){
                                         char* output_text = substring(lexer.begin_stream, c_node.matched_start, matched_end);
                                         addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
+                                        free(output_text);
                                     }
                                     else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                     qs.node[start_index].matched_start = INVALID; 
@@ -391,6 +392,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 if(wa->id==0){
                                     char* output_text = substring(lexer.begin_stream, c_node.matched_start, matched_end);
                                     addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
+                                    free(output_text);
                                 }
                                 else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                 qs.node[start_index].matched_start = INVALID; 
-- 
2.43.0


From 767da2e48879137276e0b83339bff558f58bb6dd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 15/39] fix: a primitive at the very end of a stream was
 dropped

---
 JSONQuery/lexing.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index 7cd2d1f..7db52ba 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -194,6 +194,17 @@ Token nextToken(Lexer* lexer)
         }
         
     }
+    if(state==2)  //the stream ends with a primitive
+    {
+        substring_in_place(lexer->content, token_pointer, 0, end-token_pointer);
+        lexer->current_pointer = end;
+        lexer->current_start = lexer->current_pointer+1; 
+        lexer->lex_state = 0;
+        lexer->next_start = end;
+        token.token_type = PRI;
+        token.content = lexer->content;
+        return token;
+    }
     token.token_type = END;
     return token;
 }
-- 
2.43.0


From 6cda6ef4ad5579ba4bca7161d42fee61a2ff163a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 16/39] fix: lookahead in a worker overwrote the text of the
 current primitive

---
 JSONQuery/worker_automaton.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 23dcad7..74c2162 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -47,8 +47,11 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
 //syntax stack feasibility inference
 static inline void syntaxStackInference(Lexer* lexer, int input_token_type, SyntaxStack* shadow_ss, SyntaxStack* ss)
 {
+    //looking ahead must not overwrite the content of the current symbol
+    lexer->content = (char*)malloc((lexer->end_stream-lexer->begin_stream+1)*sizeof(char));
     Token first_token = nextToken(lexer);
     Token second_token = nextToken(lexer);
+    destroyLexer(lexer);
     if(input_token_type==RCB)
     {
         if(syntaxStackSize(ss)==1)
-- 
2.43.0


From 6602c2b8fa53d642179dbf84018172a0f703dbc7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:43:56 +0000
Subject: [PATCH 17/39] fix: a unit starting with a primitive had no start
 position

---
 JSONQuery/worker_automaton.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 74c2162..462d02d 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -164,6 +164,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     //initialize lexer
     Lexer lexer;
     initLexer(&lexer, json_stream);
+    //where the search for the current symbol begins
+    char* token_start = lexer.next_start;
     Token token = nextToken(&lexer);
     int token_type = token.token_type;
 
@@ -566,7 +568,10 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     else if(syntaxStackTop(&shadow_ss)==LB)  
                     {
                         if(unit.unit_state!=UNIT_MATCHED)
+                        {
                             unit.unit_state = UNIT_MATCHED;
+                            addStartPosition(&unit, token_start);
+                        }
                         int start_index=qs_elt.start, end_index=qs_elt.end;
                         while(start_index<=end_index)
                         {
@@ -583,6 +588,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 }
                 break;
         }
+        token_start = lexer.next_start;
         token = nextToken(&lexer);
         token_type = token.token_type; 
     }
-- 
2.43.0


From a7f6cb598ee5d304915a988c36358abb54c27767 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 18/39] fix: objects and arrays crossing several chunks, or a
 reprocessed unit, got the wrong text

---
 JSONQuery/parallel_automata_execution.h | 61 +++++++++++++++----------
 JSONQuery/worker_automaton.c            | 26 ++++-------
 JSONQuery/worker_automaton.h            |  3 ++
 3 files changed, 49 insertions(+), 41 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 07c31c0..8662090 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -27,6 +27,7 @@ typedef struct ThreadInfo{
     pthread_t thread;
     int thread_id;
     char* input_stream;
+    int stream_length;
     double execution_time;
     WorkerAutomaton* worker_automaton;
 }ThreadInfo;
@@ -130,6 +131,27 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
     return match;
 }
 
+//get the text of an object or array, which might cross several chunks
+static inline char* getMatchedText(ThreadInfo* thread_info, int num_thread, int start, int end)
+{
+    char* text = (char*)malloc((end-start+1)*sizeof(char));
+    int i, length = 0, offset = 0;
+    for(i = 0; i<num_thread && start+length<end; i++)
+    {
+        int next_offset = offset+thread_info[i].stream_length;
+        if(start+length<next_offset)
+        {
+            int chunk_end = end<next_offset ? end : next_offset;
+            int chunk_length = chunk_end-(start+length);
+            substring_in_place(text+length, thread_info[i].input_stream, start+length-offset, start+length-offset+chunk_length);
+            length += chunk_length;
+        }
+        offset = next_offset;
+    }
+    text[length] = '\0';
+    return text;
+}
+
 // merging results from different chunks
 TupleList* combine(ThreadInfo* thread_info, int num_thread)
 {
@@ -180,14 +202,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             int matched_type = getMatchedType(qa,&c_node);
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
-                                int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index+1;
-                                int strlen = left_len+right_len;
-                                char* object_text = (char*)malloc((strlen+1)*sizeof(char));
-                                substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-                                substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
-                                addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
-                                free(object_text);
+                                addVirtualTupleInfo(&qs, node_index, c_node.query_state, c_node.matched_start, us.index+1, tuple_list);
                                 qs.node[node_index].matched_start = INVALID;
                                 sum++;
                             }
@@ -232,15 +247,8 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             int matched_type = getMatchedType(qa,&c_node);
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
-                                int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index;
-                                int strlen = left_len+right_len;
-                                char* object_text = (char*)malloc((strlen+1)*sizeof(char));
-                                substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-                                substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
-                                addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
-                                free(object_text);
-                                qs.node[node_index].matched_start = INVALID;
+                                addVirtualTupleInfo(&qs, top_qs_elt.start, c_node.query_state, c_node.matched_start, us.index+1, tuple_list);
+                                qs.node[top_qs_elt.start].matched_start = INVALID;
                                 sum++;
                             }
                         }
@@ -298,6 +306,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     seq_wa->query_stacks = qs;
                     seq_wa->query_stacks_element = qs_elt;
                     seq_wa->need_reprocess = REPROCESS;
+                    seq_wa->stream_offset = wa->stream_offset+start_index;
                     printf("start reprocessing the %dth unit in the %dth chunk\n", j, i);
                     executeWorkerAutomaton(seq_wa, streaming); 
                     printf("the %dth unit in the %dth chunk has been reprocessed successfully\n", j, i);
@@ -343,11 +352,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 if(tuple.start_position==-1)
                     addTuple(tuple_list, tuple.state, tuple.text);
                 else
-                {   
-                    char* object_text = substring(thread_info[i].input_stream, tuple.start_position, tuple.end_position); 
-                    addTuple(tuple_list, tuple.state, object_text); 
-                    free(object_text);
-                }
+                    addVirtualTuple(tuple_list, tuple.state, tuple.start_position, tuple.end_position); 
                 sum++;
             }
         }
@@ -358,6 +363,13 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
             combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element);  //merge query stacks
         }
     }
+    //get the contents of objects and arrays
+    for(i = 0; i<getTupleListSize(tuple_list); i++)
+    {
+        Tuple* tuple = &tuple_list->element[i];
+        if(tuple->text==NULL)
+            tuple->text = getMatchedText(thread_info, num_thread, tuple->start_position, tuple->end_position);
+    }
     seq_wa->syntax_stack = ss;
     seq_wa->query_stacks = qs;
     seq_wa->query_stacks_element = qs_elt;
@@ -372,15 +384,18 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     int num_cores = par_info.num_chunk;
     JSONQueryDFA* qa = pa->query_automaton;
     ThreadInfo ti[MAX_THREAD]; 
-    int i;
+    int i, stream_offset = 0;
     for(i = 0; i<num_cores; i++)
     {
         //initialize each thread
         ti[i].thread_id = i;
         ti[i].input_stream = par_info.stream[i];
+        ti[i].stream_length = strlen(ti[i].input_stream);
         if((i==0)&&(pa->major_automaton!=NULL))  ti[i].worker_automaton = pa->major_automaton;  
         else 
             ti[i].worker_automaton = createWorkerAutomaton(qa, i, ct);
+        ti[i].worker_automaton->stream_offset = stream_offset;
+        stream_offset += ti[i].stream_length;
         int rc=pthread_create(&ti[i].thread, NULL, main_thread, &ti[i]);  
     	if (rc)
         {
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 462d02d..a5e6060 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -201,7 +201,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         int matched_type = getMatchedType(qa,&c_node); 
                         if(matched_type==DFA_OUTPUT_CANDIDATE ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
                         { 
-                            qs.node[start_index].matched_start = lexer.next_start - lexer.begin_stream - 1; 
+                            qs.node[start_index].matched_start = wa->stream_offset + (lexer.next_start - lexer.begin_stream) - 1; 
                         }
                         else if(matched_type==DFA_PREDICATE)
                         {   
@@ -229,13 +229,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 int matched_type = getMatchedType(qa,&c_node);
                                 if(matched_type==DFA_OUTPUT_CANDIDATE||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
                                 {  
-                                    int matched_end = lexer.next_start - lexer.begin_stream;
-                                    if(wa->id==0){
-                                        char* output_text = substring(lexer.begin_stream, c_node.matched_start, matched_end);
-                                        addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
-                                        free(output_text);
-                                    }
-                                    else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
+                                    int matched_end = wa->stream_offset + (lexer.next_start - lexer.begin_stream);
+                                    addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                     qs.node[start_index].matched_start = INVALID; 
                                 }
                             }
@@ -257,7 +252,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             qs_elt = initQueryStacks(&qs, query_state, num_query_state);
                         }
                         us.token_type = RCB;
-                        us.index = lexer.next_start - lexer.begin_stream - 1;
+                        us.index = wa->stream_offset + (lexer.next_start - lexer.begin_stream) - 1;
                         addUnmatchedSymbol(&unit, us);   
                     }
                     //syntax stack only has one '{'
@@ -368,7 +363,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         int matched_type = getMatchedType(qa,&c_node);
                         if(matched_type==DFA_OUTPUT_CANDIDATE ||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))  
                         { 
-                            qs.node[start_index].matched_start = lexer.next_start - lexer.begin_stream - 1; 
+                            qs.node[start_index].matched_start = wa->stream_offset + (lexer.next_start - lexer.begin_stream) - 1; 
                         }
                         else if(matched_type==DFA_CONDITION)
                         {   
@@ -393,13 +388,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             int matched_type = getMatchedType(qa,&c_node);
                             if(matched_type==DFA_OUTPUT_CANDIDATE||(wa->id>0 && matched_type==DFA_UNSELECTED_CANDIDATE))
                             {   
-                                int matched_end = lexer.next_start - lexer.begin_stream;
-                                if(wa->id==0){
-                                    char* output_text = substring(lexer.begin_stream, c_node.matched_start, matched_end);
-                                    addTupleInfo(&qs, start_index, c_node.query_state, output_text, tl); 
-                                    free(output_text);
-                                }
-                                else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
+                                int matched_end = wa->stream_offset + (lexer.next_start - lexer.begin_stream);
+                                addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                 qs.node[start_index].matched_start = INVALID; 
                             }
                             else if(matched_type==DFA_INCOMPLETE_INDEX)
@@ -492,7 +482,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                         qs_elt = initQueryStacks(&qs, query_state, num_query_state);
                     }
                     us.token_type = RB;
-                    us.index = lexer.next_start - lexer.begin_stream - 1;
+                    us.index = wa->stream_offset + (lexer.next_start - lexer.begin_stream) - 1;
                     addUnmatchedSymbol(&unit, us); 
                 }
                 break;
diff --git a/JSONQuery/worker_automaton.h b/JSONQuery/worker_automaton.h
index 7b27532..84c6622 100644
--- a/JSONQuery/worker_automaton.h
+++ b/JSONQuery/worker_automaton.h
@@ -38,6 +38,8 @@ typedef struct WorkerAutomaton{
     // saves information for each data unit
     UnitList unit_list;
     TupleList* tuple_list;
+    // position of the automaton's stream in the whole input stream
+    int stream_offset;
     // whether streaming automaton has data constraint
     int constraint_flag;
     // saves data constraint table
@@ -54,6 +56,7 @@ static inline void initWorkerAutomaton(WorkerAutomaton* wa, JSONQueryDFA* qa)
     initSyntaxStack(&wa->syntax_stack);
     initUnitList(&wa->unit_list);
     wa->tuple_list = createTupleList();
+    wa->stream_offset = 0;
     wa->need_reprocess = NOREPROCESS;
     wa->initial_flag = NOINITIAL;
 }
-- 
2.43.0


From 3a04a4f9ca3124e0840ec6bb62287f5262c70caa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 19/39] fix: merged query stacks had uninitialised links and
 lost the match in progress

---
 JSONQuery/multi_stack.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 3155edc..28dfa6d 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -422,6 +422,9 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
         } 
         if(root_index!=-1)
         { 
+            //the current object or array might be incomplete
+            if(src_qs->node[root_index].matched_start!=INVALID)
+                dst_qs->node[dst_qs_elt->start].matched_start = src_qs->node[root_index].matched_start;
             //use root information to find the correct paths in src_qs
             for(i = 1; i<=top_src; i++)
             {
@@ -441,6 +444,13 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
                             dst_qs->node[node_index].query_state = src_qs->node[start].query_state;
                             dst_qs->node[node_index].count = src_qs->node[start].count;
                             dst_qs->node[node_index].matched_start = src_qs->node[start].matched_start;
+                            //there is only one path, starting from the first node
+                            dst_qs->node[node_index].parent_range.start = dst_qs->num_parent_pointers;
+                            dst_qs->node[node_index].parent_range.end = dst_qs->num_parent_pointers;
+                            dst_qs->parent_pointers[dst_qs->num_parent_pointers++] = dst_qs_elt->start;
+                            dst_qs->node[node_index].root_range.start = dst_qs->num_root_pointers;
+                            dst_qs->node[node_index].root_range.end = dst_qs->num_root_pointers;
+                            dst_qs->root_pointers[dst_qs->num_root_pointers++] = 0;
                             dst_qs_elt->start = node_index;
                             dst_qs_elt->end = node_index;
                             break;
-- 
2.43.0


From 3c4684be51640fb00b8d6f3ac46930bdd6c0940f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 20/39] fix: array indexes were miscounted across chunks

---
 JSONQuery/multi_stack.h                 | 13 ++++++---
 JSONQuery/parallel_automata_execution.h | 37 +++++++++----------------
 JSONQuery/tuple_list.h                  |  9 ++++++
 JSONQuery/worker_automaton.c            |  8 ------
 4 files changed, 31 insertions(+), 36 deletions(-)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 28dfa6d..c0687ab 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -322,6 +322,7 @@ static inline void addTupleInfo(QueryStacks* qs, int node_index, int query_state
          int root_index = qs->root_pointers[root_s];
          TreeNode root = qs->node[root_index];
          addTuple(tl, query_state, text_content);
+         setRootCount(tl, getTupleListSize(tl)-1, root.count);
          if(root.first_tuple_index>=0){
              int tuple_index = getTupleListSize(tl)-1;
              linkTuples(tl, root.last_tuple_index, tuple_index);
@@ -340,6 +341,7 @@ static inline void addTupleInfo(QueryStacks* qs, int node_index, int query_state
          int root_index = node_index;
          TreeNode root = qs->node[root_index];
          addTuple(tl, query_state, text_content);
+         setRootCount(tl, getTupleListSize(tl)-1, root.count);
          if(root.first_tuple_index>=0){
              int tuple_index = getTupleListSize(tl)-1;
              linkTuples(tl, root.last_tuple_index, tuple_index);
@@ -366,6 +368,7 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
          TreeNode root = qs->node[root_index];
          //only saves pointers for large object or array outputs, contents can be acquired during merging phase
          addVirtualTuple(tl, query_state, matched_start, matched_end);
+         setRootCount(tl, getTupleListSize(tl)-1, root.count);
          if(root.first_tuple_index>=0){
              int tuple_index = getTupleListSize(tl)-1;
              linkTuples(tl, root.last_tuple_index, tuple_index);
@@ -384,6 +387,7 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
          int root_index = node_index;
          TreeNode root = qs->node[root_index]; 
          addVirtualTuple(tl, query_state, matched_start, matched_end);
+         setRootCount(tl, getTupleListSize(tl)-1, root.count);
          if(root.first_tuple_index>=0){
              int tuple_index = getTupleListSize(tl)-1;
              linkTuples(tl, root.last_tuple_index, tuple_index);
@@ -398,7 +402,8 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
 }
 
 // combine one stack with multiple paths into another stack with a single path, can only be used during merging phase
-static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* dst_qs_elt, QueryStacks* src_qs, QueryStacksElement* src_qs_elt)
+// in_range: whether the current array element of the destination satisfies its array index, otherwise nothing below could match
+static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* dst_qs_elt, QueryStacks* src_qs, QueryStacksElement* src_qs_elt, int in_range)
 {
     int i = 0;
     src_qs->item[++src_qs->top_item] = (*src_qs_elt);
@@ -423,7 +428,7 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
         if(root_index!=-1)
         { 
             //the current object or array might be incomplete
-            if(src_qs->node[root_index].matched_start!=INVALID)
+            if(in_range && src_qs->node[root_index].matched_start!=INVALID)
                 dst_qs->node[dst_qs_elt->start].matched_start = src_qs->node[root_index].matched_start;
             //use root information to find the correct paths in src_qs
             for(i = 1; i<=top_src; i++)
@@ -441,9 +446,9 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
                         if(src_qs->root_pointers[root_start]==root_index)
                         {
                             int node_index = (dst_qs->num_node++); 
-                            dst_qs->node[node_index].query_state = src_qs->node[start].query_state;
+                            dst_qs->node[node_index].query_state = in_range ? src_qs->node[start].query_state : 0;
                             dst_qs->node[node_index].count = src_qs->node[start].count;
-                            dst_qs->node[node_index].matched_start = src_qs->node[start].matched_start;
+                            dst_qs->node[node_index].matched_start = in_range ? src_qs->node[start].matched_start : INVALID;
                             //there is only one path, starting from the first node
                             dst_qs->node[node_index].parent_range.start = dst_qs->num_parent_pointers;
                             dst_qs->node[node_index].parent_range.end = dst_qs->num_parent_pointers;
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 8662090..1057340 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -131,6 +131,14 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
     return match;
 }
 
+//check whether the array element, which is the specific number of elements after the current one, satisfies the array index
+static inline int inArrayIndex(JSONQueryDFA* qa, TreeNode* tnode, int number)
+{
+    JSONQueryIndexPair pair = getDFAArrayIndex(qa, tnode->query_state);
+    int counter = tnode->count+number;
+    return (pair.lower==0&&pair.upper==0)||(counter>=pair.lower && counter<pair.upper);
+}
+
 //get the text of an object or array, which might cross several chunks
 static inline char* getMatchedText(ThreadInfo* thread_info, int num_thread, int start, int end)
 {
@@ -324,30 +332,8 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
             {
                 Tuple tuple = getTuple(tl, tuple_index); 
                 tuple_index = tuple.next_index;
-                int query_state = qs.node[qs_elt.start].query_state;
-                if(query_state == 0) continue;
-                JSONQueryIndexPair pair = getDFAArrayIndex(qa, query_state);
-                int lower = pair.lower; 
-                int upper = pair.upper; 
-                int counter = qs.node[qs_elt.start].count; 
                 //check array indexes
-                if(!(lower==0&&upper==0))
-                {
-                    if(tuple.text!=NULL && (strcmp(tuple.text, "}")==0||strcmp(tuple.text, "]")==0)) { 
-                        qs.node[qs_elt.start].count++; 
-                        if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0; 
-                        continue;
-                    }
-                    else if(!(counter>=lower && counter<upper)) { 
-                        if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0;
-                        continue;
-                    }
-                    else
-                    {
-                        int matched_type = getMatchedType(qa, &qs.node[qs_elt.start]);
-                        if(matched_type==DFA_OUTPUT_CANDIDATE) qs.node[qs_elt.start].count++;
-                    }
-                }    
+                if(!inArrayIndex(qa, &qs.node[qs_elt.start], tuple.root_count)) continue;
                 // add corresponding tuple into the tuple list 
                 if(tuple.start_position==-1)
                     addTuple(tuple_list, tuple.state, tuple.text);
@@ -355,12 +341,15 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     addVirtualTuple(tuple_list, tuple.state, tuple.start_position, tuple.end_position); 
                 sum++;
             }
+            //update array counter by the number of elements inside the unit
+            if(l<unit.num_root) qs.node[qs_elt.start].count += unit.root_node[l].count;
         }
         //merge stack  
         if(merge_needed==1)
         {
             combineSyntaxStack(&ss, &wa->syntax_stack); 
-            combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element);  //merge query stacks
+            int in_range = inArrayIndex(qa, &qs.node[qs_elt.start], 0);
+            combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element, in_range);  //merge query stacks
         }
     }
     //get the contents of objects and arrays
diff --git a/JSONQuery/tuple_list.h b/JSONQuery/tuple_list.h
index 4eff1a2..4397117 100644
--- a/JSONQuery/tuple_list.h
+++ b/JSONQuery/tuple_list.h
@@ -14,6 +14,8 @@ typedef struct Tuple{
     int state;
     //string text, NULL for a virtual tuple
     char* text;
+    //array counter of the root node when the tuple was added
+    int root_count;
     int next_index;
 }Tuple;
 
@@ -67,6 +69,7 @@ static inline void addTuple(TupleList* tl, int state, char* text)
     tl->element[index].start_position = -1;
     tl->element[index].end_position = -1;
     tl->element[index].text = allocate_and_copy(text); 
+    tl->element[index].root_count = 0;
     tl->element[index].next_index  = -1;
 }
 
@@ -77,6 +80,7 @@ static inline void addVirtualTuple(TupleList* tl, int state, int start_position,
     tl->element[index].start_position = start_position; 
     tl->element[index].end_position = end_position;
     tl->element[index].text = NULL;
+    tl->element[index].root_count = 0;
     tl->element[index].next_index  = -1;
 }
 
@@ -85,6 +89,11 @@ static inline void linkTuples(TupleList* tl, int current_index, int next_index)
     tl->element[current_index].next_index = next_index;
 }
 
+static inline void setRootCount(TupleList* tl, int index, int root_count)
+{
+    tl->element[index].root_count = root_count;
+}
+
 static inline Tuple getTuple(TupleList* tl, int index)
 {
     return tl->element[index];
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index a5e6060..228c552 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -298,10 +298,6 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 {
                                     addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);
                                 }
-                                else if(matched_type==DFA_INCOMPLETE_INDEX)
-                                {
-                                    addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);  
-                                }
                                 start_index++;
                             }
                         }
@@ -392,10 +388,6 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                 qs.node[start_index].matched_start = INVALID; 
                             }
-                            else if(matched_type==DFA_INCOMPLETE_INDEX)
-                            {
-                                addTupleInfo(&qs, start_index, c_node.query_state, "]", tl);
-                            }
                         }
                         start_index++;
                     }
-- 
2.43.0


From 438fa0c9c2f3526af03ac735bc1c05b50c938d3d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:49:26 +0000
Subject: [PATCH 21/39] fix: objects and arrays crossing the boundary of a
 partial run got the wrong text

---
 JSONQuery/parallel_automata_execution.h | 69 ++++++++++++++++++++-----
 JSONQuery/path_processor.h              |  6 +--
 JSONQuery/streaming_automaton.c         | 63 +++++++++++++++++++---
 JSONQuery/streaming_automaton.h         | 11 ++++
 JSONQuery/worker_automaton.c            |  4 +-
 5 files changed, 126 insertions(+), 27 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 1057340..e61fdce 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -39,6 +39,9 @@ typedef struct ParallelAutomata{
     QueryStacks query_stacks; 
     TupleList* tuple_list;
     WorkerAutomaton* major_automaton;
+    // text of an unfinished object or array match, which started inside a previous stream
+    char* pending;
+    int pending_length;
     int finish_flag;
 }ParallelAutomata;
 
@@ -47,6 +50,8 @@ static inline void initParallelAutomata(ParallelAutomata* pa, JSONQueryDFA* qa)
     pa->query_automaton = qa;
     pa->tuple_list = NULL;
     pa->major_automaton = NULL;
+    pa->pending = NULL;
+    pa->pending_length = 0;
     pa->finish_flag = INPROGRESS;
 }
 
@@ -71,6 +76,12 @@ static inline void destroyParallelAutomata(ParallelAutomata* pa)
             pa->major_automaton = NULL;
         }
     }
+    if(pa->finish_flag==FINISH && pa->pending != NULL)
+    {
+        free(pa->pending);
+        pa->pending = NULL;
+        pa->pending_length = 0;
+    }
 }
 
 //main function for each thread
@@ -139,20 +150,21 @@ static inline int inArrayIndex(JSONQueryDFA* qa, TreeNode* tnode, int number)
     return (pair.lower==0&&pair.upper==0)||(counter>=pair.lower && counter<pair.upper);
 }
 
-//get the text of an object or array, which might cross several chunks
-static inline char* getMatchedText(ThreadInfo* thread_info, int num_thread, int start, int end)
+//get the text of an object or array, which might begin inside the pending text and cross several chunks
+static inline char* getMatchedText(ParallelAutomata* pa, ThreadInfo* thread_info, int num_thread, int start, int end)
 {
     char* text = (char*)malloc((end-start+1)*sizeof(char));
     int i, length = 0, offset = 0;
-    for(i = 0; i<num_thread && start+length<end; i++)
+    for(i = -1; i<num_thread && start+length<end; i++)
     {
-        int next_offset = offset+thread_info[i].stream_length;
+        char* piece = i<0 ? pa->pending : thread_info[i].input_stream;
+        int next_offset = offset+(i<0 ? pa->pending_length : thread_info[i].stream_length);
         if(start+length<next_offset)
         {
-            int chunk_end = end<next_offset ? end : next_offset;
-            int chunk_length = chunk_end-(start+length);
-            substring_in_place(text+length, thread_info[i].input_stream, start+length-offset, start+length-offset+chunk_length);
-            length += chunk_length;
+            int piece_end = end<next_offset ? end : next_offset;
+            int piece_length = piece_end-(start+length);
+            substring_in_place(text+length, piece, start+length-offset, start+length-offset+piece_length);
+            length += piece_length;
         }
         offset = next_offset;
     }
@@ -160,8 +172,36 @@ static inline char* getMatchedText(ThreadInfo* thread_info, int num_thread, int
     return text;
 }
 
+//keep the text of unfinished matches, as the next stream would continue with them
+static inline void savePendingText(ParallelAutomata* pa, ThreadInfo* thread_info, int num_thread)
+{
+    QueryStacks* qs = &thread_info[0].worker_automaton->query_stacks;
+    int i, start = INVALID;
+    for(i = 0; i<qs->num_node; i++)
+    {
+        int matched_start = qs->node[i].matched_start;
+        if(matched_start!=INVALID && (start==INVALID || matched_start<start)) start = matched_start;
+    }
+    char* pending = NULL;
+    int pending_length = 0;
+    if(start!=INVALID)
+    {
+        int end = pa->pending_length;
+        for(i = 0; i<num_thread; i++)
+            end += thread_info[i].stream_length;
+        pending = getMatchedText(pa, thread_info, num_thread, start, end);
+        pending_length = end-start;
+        //positions are counted from the beginning of the new pending text
+        for(i = 0; i<qs->num_node; i++)
+            if(qs->node[i].matched_start!=INVALID) qs->node[i].matched_start -= start;
+    }
+    if(pa->pending!=NULL) free(pa->pending);
+    pa->pending = pending;
+    pa->pending_length = pending_length;
+}
+
 // merging results from different chunks
-TupleList* combine(ThreadInfo* thread_info, int num_thread)
+TupleList* combine(ParallelAutomata* pa, ThreadInfo* thread_info, int num_thread)
 {
     int i,j,k;
     //get some information for thread 0
@@ -211,9 +251,9 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
                                 addVirtualTupleInfo(&qs, node_index, c_node.query_state, c_node.matched_start, us.index+1, tuple_list);
-                                qs.node[node_index].matched_start = INVALID;
                                 sum++;
                             }
+                            qs.node[node_index].matched_start = INVALID;
                         }
                     }
                     //syntax stack only has one '{'
@@ -256,9 +296,9 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
                                 addVirtualTupleInfo(&qs, top_qs_elt.start, c_node.query_state, c_node.matched_start, us.index+1, tuple_list);
-                                qs.node[top_qs_elt.start].matched_start = INVALID;
                                 sum++;
                             }
+                            qs.node[top_qs_elt.start].matched_start = INVALID;
                         }
                     }
                     //syntax stack only has one '['
@@ -357,7 +397,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
     {
         Tuple* tuple = &tuple_list->element[i];
         if(tuple->text==NULL)
-            tuple->text = getMatchedText(thread_info, num_thread, tuple->start_position, tuple->end_position);
+            tuple->text = getMatchedText(pa, thread_info, num_thread, tuple->start_position, tuple->end_position);
     }
     seq_wa->syntax_stack = ss;
     seq_wa->query_stacks = qs;
@@ -373,7 +413,7 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     int num_cores = par_info.num_chunk;
     JSONQueryDFA* qa = pa->query_automaton;
     ThreadInfo ti[MAX_THREAD]; 
-    int i, stream_offset = 0;
+    int i, stream_offset = pa->pending_length;
     for(i = 0; i<num_cores; i++)
     {
         //initialize each thread
@@ -395,11 +435,12 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     for (i = 0; i <num_cores; i++)
         pthread_join(ti[i].thread, NULL);
     printf("worker automata: finish parallel query processing\n");
-    TupleList* tl = combine(ti, num_cores);
+    TupleList* tl = combine(pa, ti, num_cores);
     printf("combiner: finish merging 2-tuple lists\n");
     pa->syntax_stack = ti[0].worker_automaton->syntax_stack;
     pa->query_stacks = ti[0].worker_automaton->query_stacks;
     pa->tuple_list = tl;
+    savePendingText(pa, ti, num_cores);
     pa->major_automaton = ti[0].worker_automaton;
     for (i = 1; i <num_cores; i++)
     {
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 4c6685c..0320b43 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -164,8 +164,10 @@ static inline void initStreamingContext(StreamingContext* ci)
     ci->context_flag = NOCONTEXT;
     ci->finish_flag = INPROGRESS;
     ci->sa.tuple_list = NULL;
+    ci->sa.pending = NULL;
     ci->pa.tuple_list = NULL;
     ci->pa.major_automaton = NULL;
+    ci->pa.pending = NULL;
     ci->pf.buffer = NULL;
     int i;
     for(i = 0; i<MAX_PREDICATE_STATE; i++)
@@ -203,10 +205,8 @@ static inline Output* serialPartialRun(PathProcessor* path_processor, char* inpu
     Output* output = generateFinalOutput(&pf);
     ci->pf = pf;
 
-    //free up dynamic memories
-    destroyStreamingAutomaton(&streaming_automaton);
-
     //the next run continues from the current context with an empty tuple list
+    freeTupleList(streaming_automaton.tuple_list);
     streaming_automaton.tuple_list = createTupleList();
     ci->sa = streaming_automaton;
 
diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index 52adbf5..e872de4 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -128,6 +128,51 @@ static inline void val_pmt(QueryStackElement* qs_elt, SyntaxStack* ss, QueryStac
     syntaxStackPop(ss);
 }
 
+//get the position right after the current symbol, counted from the beginning of the pending text
+static inline int getPosition(StreamingAutomaton* sa, Lexer* lexer)
+{
+    return sa->pending_length + (lexer->next_start - lexer->begin_stream);
+}
+
+//get the text between two positions, which might begin inside the pending text
+static char* getMatchedText(StreamingAutomaton* sa, char* json_stream, int start, int end)
+{
+    if(start>=sa->pending_length)
+        return substring(json_stream, start-sa->pending_length, end-sa->pending_length);
+    char* text = (char*)malloc((end-start+1)*sizeof(char));
+    int length = sa->pending_length-start;
+    substring_in_place(text, sa->pending, start, sa->pending_length);
+    substring_in_place(text+length, json_stream, 0, end-sa->pending_length);
+    return text;
+}
+
+//keep the text of unfinished matches, as the next stream would continue with them
+static void savePendingText(StreamingAutomaton* sa, QueryStackElement* qs_elt, char* json_stream)
+{
+    QueryStack* qs = &sa->query_stack;
+    int i, start = qs_elt->matched_start;
+    for(i = 0; i<=qs->top_item; i++)
+    {
+        int matched_start = qs->item[i].matched_start;
+        if(matched_start!=INVALID && (start==INVALID || matched_start<start)) start = matched_start;
+    }
+    char* pending = NULL;
+    int pending_length = 0;
+    if(start!=INVALID)
+    {
+        int end = sa->pending_length+strlen(json_stream);
+        pending = getMatchedText(sa, json_stream, start, end);
+        pending_length = end-start;
+        //positions are counted from the beginning of the new pending text
+        if(qs_elt->matched_start!=INVALID) qs_elt->matched_start -= start;
+        for(i = 0; i<=qs->top_item; i++)
+            if(qs->item[i].matched_start!=INVALID) qs->item[i].matched_start -= start;
+    }
+    if(sa->pending!=NULL) free(sa->pending);
+    sa->pending = pending;
+    sa->pending_length = pending_length;
+}
+
 // the execution of streaming automaton
 void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constraint_flag)
 {
@@ -170,7 +215,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     int matched_type = getMatchedType(qa,qs_elt);
                     if(matched_type==DFA_OUTPUT_CANDIDATE)  
                     { 
-                        qs_elt->matched_start = lexer.next_start - lexer.begin_stream - 1; 
+                        qs_elt->matched_start = getPosition(sa, &lexer) - 1; 
                     }
                     else if(matched_type==DFA_PREDICATE)
                     {
@@ -186,12 +231,12 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                 //it is a matched output
                 if(qs_elt->matched_start!=INVALID && getMatchedType(qa, qs_elt)==DFA_OUTPUT_CANDIDATE)
                 {
-                    int position = lexer.next_start - lexer.begin_stream;
-                    char* output_text = substring(lexer.begin_stream, qs_elt->matched_start, position);
-                    qs_elt->matched_start = INVALID;
+                    int position = getPosition(sa, &lexer);
+                    char* output_text = getMatchedText(sa, lexer.begin_stream, qs_elt->matched_start, position);
                     addTuple(tl, qs_elt->query_state, output_text);
                     free(output_text);
                 }
+                qs_elt->matched_start = INVALID;
                 //syntax stack only has one '{'
                 if(syntaxStackSize(ss) == 1)   
                 {
@@ -222,7 +267,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     int matched_type = getMatchedType(qa, qs_elt);                 
                     if(matched_type==DFA_OUTPUT_CANDIDATE)  
                     { 
-                        qs_elt->matched_start = lexer.next_start - lexer.begin_stream - 1;  
+                        qs_elt->matched_start = getPosition(sa, &lexer) - 1;  
                     }
                     else if(matched_type==DFA_CONDITION)
                     {
@@ -250,9 +295,8 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     //it is a matched output
                     if(top_qs_elt.matched_start!=INVALID && getMatchedType(qa, &top_qs_elt)==DFA_OUTPUT_CANDIDATE)  
                     { 
-                        int position = lexer.next_start - lexer.begin_stream;
-                        char* output_text = substring(lexer.begin_stream, top_qs_elt.matched_start, position); 
-                        top_qs_elt.matched_start = INVALID;
+                        int position = getPosition(sa, &lexer);
+                        char* output_text = getMatchedText(sa, lexer.begin_stream, top_qs_elt.matched_start, position); 
                         addTuple(tl, top_qs_elt.query_state, output_text);  
                         free(output_text);
                     }
@@ -260,6 +304,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                     if(syntaxStackSize(ss) == 1)  
                     {   
                         ary_e(qs_elt, ss, qs); 
+                        qs_elt->matched_start = INVALID;
                     }
                     //syntax stack has at least two elements, the top element is '['
                     else if(syntaxStackSize(ss) > 1)  
@@ -273,6 +318,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                         else if(syntaxStackSecondTop(ss)==LB)  
                         {  
                             elt_ary_e(qs_elt, ss, qs); 
+                            qs_elt->matched_start = INVALID;
                             increaseArrayCounter(qs_elt);
                         }
                     }
@@ -324,6 +370,7 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
         token_type = token.token_type; 
     }
     destroyLexer(&lexer);
+    savePendingText(sa, qs_elt, json_stream);
     sa->query_state = qs_elt->query_state;
     sa->count = qs_elt->count;
     sa->matched_start = qs_elt->matched_start;
diff --git a/JSONQuery/streaming_automaton.h b/JSONQuery/streaming_automaton.h
index d2d8739..261abaa 100644
--- a/JSONQuery/streaming_automaton.h
+++ b/JSONQuery/streaming_automaton.h
@@ -23,6 +23,9 @@ typedef struct StreamingAutomaton{
     int count;  
     // matched starting position of object or array
     int matched_start; 
+    // text of an unfinished object or array match, which started inside a previous stream
+    char* pending;
+    int pending_length;
     // whether streaming automaton has data constraint
     int constraint_flag;
     // saves data constraint table
@@ -41,6 +44,8 @@ static inline void initStreamingAutomaton(StreamingAutomaton* sa, JSONQueryDFA*
     sa->query_state = 1;   
     sa->count = 0;  
     sa->matched_start = INVALID;
+    sa->pending = NULL;
+    sa->pending_length = 0;
     //by default don't generate any data constraints
     sa->constraint_flag = CLOSE;
     sa->constraint_table = NULL;
@@ -54,6 +59,12 @@ static inline void destroyStreamingAutomaton(StreamingAutomaton* sa)
         freeTupleList(sa->tuple_list); 
         sa->tuple_list = NULL;
     } 
+    if(sa->pending != NULL)
+    {
+        free(sa->pending);
+        sa->pending = NULL;
+        sa->pending_length = 0;
+    }
 }
 
 // data_constraint_flag: whether sa needs to generate data constraints
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 228c552..33a8be0 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -231,8 +231,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 {  
                                     int matched_end = wa->stream_offset + (lexer.next_start - lexer.begin_stream);
                                     addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
-                                    qs.node[start_index].matched_start = INVALID; 
                                 }
+                                qs.node[start_index].matched_start = INVALID; 
                             }
                             start_index++;
                         }
@@ -386,8 +386,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                             {   
                                 int matched_end = wa->stream_offset + (lexer.next_start - lexer.begin_stream);
                                 addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
-                                qs.node[start_index].matched_start = INVALID; 
                             }
+                            qs.node[start_index].matched_start = INVALID; 
                         }
                         start_index++;
                     }
-- 
2.43.0


From 2aa144b9cbdbdf7528e77ca5556c3bc751f61dcb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:53:02 +0000
Subject: [PATCH 22/39] fix: a negative number was evaluated as null inside a
 filter

---
 JSONPathParser/jsonpath_evaluator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 4ec55d3..4a4b82f 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -183,7 +183,7 @@ static inline JSONPathValue stringToValue(const char* str) {
         v.vtype = jvt_string; v.string = s;
         return v;
     }
-    if (isdigit(str[0])) {
+    if (isdigit(str[0]) || str[0] == '-') {
         v.vtype = jvt_number; v.number = atof(str);
         return v;
     }
-- 
2.43.0


From e7426bc696d6a623b58fdec17a5ee135a6870741 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:53:26 +0000
Subject: [PATCH 23/39] fix: a refused thread left its chunk unprocessed, and
 more than 100 chunks overflowed the thread table

---
 JSONQuery/parallel_automata_execution.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index e61fdce..2069c85 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -25,6 +25,8 @@
 //data structure for each thread
 typedef struct ThreadInfo{
     pthread_t thread;
+    //whether the thread has been created
+    int created;
     int thread_id;
     char* input_stream;
     int stream_length;
@@ -412,7 +414,7 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
 {
     int num_cores = par_info.num_chunk;
     JSONQueryDFA* qa = pa->query_automaton;
-    ThreadInfo ti[MAX_THREAD]; 
+    ThreadInfo* ti = (ThreadInfo*)malloc((num_cores+1)*sizeof(ThreadInfo));
     int i, stream_offset = pa->pending_length;
     for(i = 0; i<num_cores; i++)
     {
@@ -426,14 +428,14 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
         ti[i].worker_automaton->stream_offset = stream_offset;
         stream_offset += ti[i].stream_length;
         int rc=pthread_create(&ti[i].thread, NULL, main_thread, &ti[i]);  
-    	if (rc)
-        {
-            printf("ERROR; return code is %d\n", rc);
-            return 0;
-        }
+        ti[i].created = (rc==0);
     }
     for (i = 0; i <num_cores; i++)
-        pthread_join(ti[i].thread, NULL);
+    {
+        if(ti[i].created) pthread_join(ti[i].thread, NULL);
+        //out of threads, process the chunk inside the current one
+        else main_thread(&ti[i]);
+    }
     printf("worker automata: finish parallel query processing\n");
     TupleList* tl = combine(pa, ti, num_cores);
     printf("combiner: finish merging 2-tuple lists\n");
@@ -446,6 +448,7 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     {
         freeWorkerAutomaton(ti[i].worker_automaton); 
     }
+    free(ti);
 }
 
 #endif // !__PARALLEL_AUTOMATA_EXECUTION_H__
-- 
2.43.0


From b5b8cf79873ec541452e7e4636057f22b2fa9827 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:53:46 +0000
Subject: [PATCH 24/39] fix: a file that cannot be read, or only in part, gave
 an incomplete result or a crash

---
 JSONQuery/file_partition.c              | 16 ++++++--
 JSONQuery/parallel_automata_execution.h |  6 +++
 JSONQuery/path_processor.h              | 51 ++++++++++++++++++++-----
 3 files changed, 59 insertions(+), 14 deletions(-)

diff --git a/JSONQuery/file_partition.c b/JSONQuery/file_partition.c
index 5b4491f..11a63a1 100644
--- a/JSONQuery/file_partition.c
+++ b/JSONQuery/file_partition.c
@@ -18,9 +18,9 @@ PartitionInfo partitionFile(char* file_name, int num_core)
     long file_size, chunk_size;
     fp = fopen(file_name,"rb");
     if (fp==NULL) { return pInfo;}
-    fseek (fp, 0, SEEK_END);
-    file_size = ftell(fp);
-    rewind(fp);     
+    file_size = -1;
+    if(fseek(fp, 0, SEEK_END)==0) file_size = ftell(fp);
+    if(file_size<0 || fseek(fp, 0, SEEK_SET)!=0) { fclose(fp); return pInfo;}
 
     chunk_size = (file_size/num_core)+1;
     stream = (char**)malloc(num_core*sizeof(char*));
@@ -52,8 +52,16 @@ PartitionInfo partitionFile(char* file_name, int num_core)
         pInfo.num_chunk = i+1;
         if(ch==EOF) break;
     }
-    fclose(fp);
     pInfo.stream = stream;
+    if(ferror(fp))
+    {
+        freeInputChunks(pInfo);
+        pInfo.num_chunk = 0;
+        pInfo.stream = NULL;
+        fclose(fp);
+        return pInfo;
+    }
+    fclose(fp);
     printf("file partitioner: finish splitting the input stream\n");
     return pInfo;
 }
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 2069c85..8562311 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -414,6 +414,12 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
 {
     int num_cores = par_info.num_chunk;
     JSONQueryDFA* qa = pa->query_automaton;
+    //there is no input stream
+    if(num_cores<=0)
+    {
+        if(pa->tuple_list==NULL) pa->tuple_list = createTupleList();
+        return;
+    }
     ThreadInfo* ti = (ThreadInfo*)malloc((num_cores+1)*sizeof(ThreadInfo));
     int i, stream_offset = pa->pending_length;
     for(i = 0; i<num_cores; i++)
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 0320b43..11ab4eb 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -28,33 +28,38 @@ char* loadInputStream(char* file_name)
     int size;
     fp = fopen(file_name,"rb");
     if (fp==NULL) { return NULL;}
-    fseek (fp, 0, SEEK_END);
-    size=ftell(fp);
-    rewind(fp); 
+    size = -1;
+    if(fseek(fp, 0, SEEK_END)==0) size=ftell(fp);
+    if(size<0 || fseek(fp, 0, SEEK_SET)!=0) { fclose(fp); return NULL;}
     char* stream =(char*)malloc((size+1)*sizeof(char));
-    fread(stream,1,size,fp); 
+    size=fread(stream,1,size,fp); 
     stream[size]='\0';
+    if(ferror(fp))
+    {
+        free(stream);
+        stream = NULL;
+    }
     fclose(fp);
     return stream;
 }
 
 //load the next available input stream with bounded memory footprint
+//returns NULL at the end of the file, or after setting start_pos to -1 if the file cannot be read
 char* loadBoundedInputStream(char* file_name, int* start_pos)
 {
     FILE *fp;
     int size;
     fp = fopen(file_name,"rb");
-    if (fp==NULL) { return NULL;}
-    fseek (fp, 0, SEEK_END);
-    size=ftell(fp);
-    rewind(fp);
+    if (fp==NULL) { *(start_pos) = -1; return NULL;}
+    size = -1;
+    if(fseek(fp, 0, SEEK_END)==0) size=ftell(fp);
+    if(size<0 || fseek(fp, *(start_pos), SEEK_SET)!=0) { fclose(fp); *(start_pos) = -1; return NULL;}
 
     int loaded_size = *(start_pos);
     size = size - loaded_size;
     if(size > MEMORY_FOOTPRINT)
         size = MEMORY_FOOTPRINT;
-    if(size<=0) return NULL;    
-    fseek(fp, loaded_size, SEEK_CUR);
+    if(size<=0) { fclose(fp); return NULL;}
     int capacity = size+MAX_EXTENSION;
     char* stream =(char*)malloc(capacity*sizeof(char));
     size=fread(stream,1,size,fp);
@@ -80,6 +85,13 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
         ch = fgetc(fp);
     }
     stream[size+add]='\0';
+    if(ferror(fp))
+    {
+        free(stream);
+        fclose(fp);
+        *(start_pos) = -1;
+        return NULL;
+    }
     int next = loaded_size+size+add;
     *(start_pos) = next;
     fclose(fp);
@@ -230,12 +242,19 @@ static inline Output* serialRun(PathProcessor* path_processor, char* file_name)
         free(input_stream);
     }
     destroyStreamingContext(&ci);
+    //the file cannot be read, an incomplete output must not be taken as the result
+    if(start_pos<0 && output!=NULL)
+    {
+        freeOutput(output);
+        output = NULL;
+    }
     return output;
 }
 
 static inline ConstraintTable* collectDataConstraints(PathProcessor* path_processor, char* file_name)
 {
     char* input_stream = loadInputStream(file_name);
+    if(input_stream == NULL) return NULL;
 
     JSONQueryDFAContext* ctx = path_processor->query_context;
     JSONQueryDFA* dfa = path_processor->query_automaton;
@@ -301,6 +320,12 @@ static inline Output* parallelRun(PathProcessor* path_processor, char* file_name
         free(input_stream);
     }
     destroyStreamingContext(&ci);
+    //the file cannot be read, an incomplete output must not be taken as the result
+    if(start_pos<0 && output!=NULL)
+    {
+        freeOutput(output);
+        output = NULL;
+    }
     return output;
 }
 
@@ -352,6 +377,12 @@ static inline Output* parallelRunOpt(PathProcessor* path_processor, char* file_n
         free(input_stream);
     }
     destroyStreamingContext(&ci);
+    //the file cannot be read, an incomplete output must not be taken as the result
+    if(start_pos<0 && output!=NULL)
+    {
+        freeOutput(output);
+        output = NULL;
+    }
     return output;
 }
 
-- 
2.43.0


From 1b090739cdb215a58dd8300a4a39f1bbf919c43d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:54:29 +0000
Subject: [PATCH 25/39] fix: long keys or many keys overflowed the constraint
 table

---
 JSONQuery/constraint.h       | 14 +++++++++++---
 JSONQuery/worker_automaton.c |  8 ++++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/JSONQuery/constraint.h b/JSONQuery/constraint.h
index 6681e9e..b9a2760 100644
--- a/JSONQuery/constraint.h
+++ b/JSONQuery/constraint.h
@@ -33,6 +33,12 @@ static inline ConstraintTable* createConstraintTable()
     return ct;
 }
 
+//whether a key is short enough to be saved with its copied terminators
+static inline int fitsConstraintTable(char* name)
+{
+    return strlen(name)+2<=MAX_KEY_TEXT;
+}
+
 static inline void updateStateInfo(ConstraintTable* ct, ConstraintInfo* ci)
 {
     int type = ci->type;
@@ -44,7 +50,7 @@ static inline void updateStateInfo(ConstraintTable* ct, ConstraintInfo* ci)
         char* constraint_key_name = ci->token_name;
         while(i<last)
         {
-            if(strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
+            if(ct->constraint_info[i].type==KY && strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
             {
                 ci->num_state = ct->constraint_info[i].num_state;
                 int j = 0;
@@ -87,10 +93,12 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
     int last = ct->num_constraint_info; 
     if(type==KY) //key field
     {
+        //nothing is known about a key that does not fit into the table
+        if(!fitsConstraintTable(name)) return;
         int i = 0;
         while(i<last)
         {
-            if(strcmp(name, ct->constraint_info[i].token_name)==0)
+            if(ct->constraint_info[i].type==KY && strcmp(name, ct->constraint_info[i].token_name)==0)
             {
                 index = i;
                 break;
@@ -127,7 +135,7 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
             ct->constraint_info[index].state_set[state_index] = state;
         }
     }
-    else{
+    else if(last<MAX_CONSTRAINT){
         ++ct->num_constraint_info;
         ct->constraint_info[index].type = type;
         if(type==KY) strcopy(name, ct->constraint_info[index].token_name);
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 33a8be0..0fab21d 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -491,8 +491,12 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 {
                     ConstraintInfo ci;
                     ci.type = KY;
-                    strcopy(token.content, ci.token_name);
-                    updateStateInfo(ct, &ci);
+                    ci.num_state = INVALID;
+                    if(fitsConstraintTable(token.content))
+                    {
+                        strcopy(token.content, ci.token_name);
+                        updateStateInfo(ct, &ci);
+                    }
                     if(ci.num_state>0)
                     {   
                         qs_elt = pruneQueryPaths(&qs, ci.state_set, ci.num_state);
-- 
2.43.0


From 2ba948ce90d3a26e37bf3932e854aeeb981b873e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 26/39] fix: a malformed path ended the whole process

---
 DFABuilder/src/dfa_builder.cpp | 1 +
 JSONPathParser/parser_j.y      | 5 +++--
 JSONQuery/path_processor.h     | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 7eac1ba..6ffff68 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -366,6 +366,7 @@ static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryD
 JSONQueryDFA* buildJSONQueryDFA(const char* json_path, JSONQueryDFAContext* context) {
     printf("\noriginal: %s\n", json_path);
     ASTNode* root = analysisJSONPath(json_path);
+    if (root == NULL) return NULL;
     return buildJSONQueryDFAFromAST(root, context);
 }
 
diff --git a/JSONPathParser/parser_j.y b/JSONPathParser/parser_j.y
index ef61cca..e62d730 100644
--- a/JSONPathParser/parser_j.y
+++ b/JSONPathParser/parser_j.y
@@ -109,12 +109,11 @@ void jerror (JLTYPE * yylloc, yyscan_t locp, ASTNode **root, const char *msg) {
 	// TODO: add line number and detail
     fprintf(stderr, "pos: %d\n", yylloc->first_column);
     fprintf(stderr, "end: %d\n", yylloc->last_column);
-	exit(1);
 }
 
 
 ASTNode* analysisJSONPath(const char* data) {
-    ASTNode* root;
+    ASTNode* root = NULL;
     yyscan_t sc;
     int res;
     jlex_init(&sc);
@@ -122,5 +121,7 @@ ASTNode* analysisJSONPath(const char* data) {
     res = jparse(sc, &root);
     j_delete_buffer(buffer, sc);
     jlex_destroy(sc);
+    //the path is malformed
+    if (res != 0) return NULL;
     return root;
 }
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 11ab4eb..cadece9 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -150,7 +150,7 @@ static inline PathProcessor* createPathProcessor(char* path)
 {
      JSONQueryDFAContext* ctx = (JSONQueryDFAContext*)malloc(sizeof(JSONQueryDFAContext)); 
      JSONQueryDFA* dfa = buildJSONQueryDFA(path, ctx);
-     if (dfa == NULL) return NULL;
+     if (dfa == NULL) { free(ctx); return NULL;}
      PathProcessor* path_processor = (PathProcessor*)malloc(sizeof(PathProcessor));
      path_processor->query_context = ctx;
      path_processor->query_automaton = dfa;
-- 
2.43.0


From d27d773be9feada761f1303edcfb4454bc2df3a5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:55:10 +0000
Subject: [PATCH 27/39] fix: releasing a path processor leaked its query
 automaton and context

---
 DFABuilder/include/dfa.h         | 1 +
 DFABuilder/include/dfa_builder.h | 9 +++++++++
 JSONQuery/path_processor.h       | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/DFABuilder/include/dfa.h b/DFABuilder/include/dfa.h
index 18c183c..ab8ce6c 100644
--- a/DFABuilder/include/dfa.h
+++ b/DFABuilder/include/dfa.h
@@ -50,6 +50,7 @@ static inline JSONQueryDFA* createJSONQueryDFA(uint32_t states_num, uint32_t inp
 static inline void destoryJSONQueryDFA(JSONQueryDFA* dfa) {
     if (dfa->table) free(dfa->table);
     if (dfa->stop_state) free(dfa->stop_state);
+    if (dfa->accept_type) free(dfa->accept_type);
     if (dfa->array_index) free(dfa->array_index);
     if (dfa->names) {
         for (int i = 0; i < dfa->inputs_num; ++i) 
diff --git a/DFABuilder/include/dfa_builder.h b/DFABuilder/include/dfa_builder.h
index 4483878..1e8bcff 100644
--- a/DFABuilder/include/dfa_builder.h
+++ b/DFABuilder/include/dfa_builder.h
@@ -48,6 +48,15 @@ static inline int getContextPredicateStates(JSONQueryDFAContext* ctx, int idx) {
     return ctx->array_predicate_states.value[idx];
 }
 
+static inline void destoryJSONQueryDFAContext(JSONQueryDFAContext* ctx) {
+    if (ctx->states_mapping)
+        for (int i = 0; i < ctx->states_num; ++i)
+            if (ctx->states_mapping[i].value) free(ctx->states_mapping[i].value);
+    if (ctx->states_mapping) free(ctx->states_mapping);
+    if (ctx->subtrees) free(ctx->subtrees);
+    if (ctx->array_predicate_states.value) free(ctx->array_predicate_states.value);
+}
+
 static inline void printJSONQueryDFAContext(JSONQueryDFAContext* ctx) {
     for (int i = 0; i < ctx->states_num; ++i) {
         if (ctx->subtrees[i]) {
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index cadece9..bbfa32e 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -160,6 +160,9 @@ static inline PathProcessor* createPathProcessor(char* path)
 static inline void freePathProcessor(PathProcessor* path_processor)
 {
      destoryJSONQueryDFA(path_processor->query_automaton); 
+     free(path_processor->query_automaton);
+     destoryJSONQueryDFAContext(path_processor->query_context);
+     free(path_processor->query_context);
      free(path_processor);
 }
 
-- 
2.43.0


From 4ddcb2959b41b3d7a8b91732090b5a67dd3170d7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:55:10 +0000
Subject: [PATCH 28/39] fix: a path without any step depended on uninitialised
 memory

---
 DFABuilder/src/dfa_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 6ffff68..35c6eff 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -89,7 +89,7 @@ struct StackContext {
     vector<ASTNode*> tree_mapping;
     set<int> output_states;
 
-    StackContext(RegexModel* model, ASTNode* root) : model(model), root(root), st(0), input_mapping(3), array_range(0) {}
+    StackContext(RegexModel* model, ASTNode* root) : model(model), root(root), st(0), last_st_generated(false), last_id_generated(0), input_mapping(3), array_range(0) {}
     ~StackContext() {}
 
     void push(StackElement&& s) {
-- 
2.43.0


From 27d7118393a19515ab1631d2e3a7d6edcdadc364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:45 +0000
Subject: [PATCH 29/39] sim hook: let a simulator choose the memory footprint
 (JPSTREAM_SIM, off by default)

---
 JSONQuery/path_processor.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index bbfa32e..d8c1692 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -20,7 +20,13 @@
 #define NOCONTEXT 0
 #define FINISH 1
 #define INPROGRESS 0
+#ifdef JPSTREAM_SIM
+//only for simulation: the footprint is chosen for each run
+extern int jpstream_sim_footprint;
+#define MEMORY_FOOTPRINT jpstream_sim_footprint
+#else
 #define MEMORY_FOOTPRINT 250000000
+#endif
 
 char* loadInputStream(char* file_name)
 {
-- 
2.43.0


From edc00d2935007b9f814efd938e36a7f4f43981b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:43 +0000
Subject: [PATCH 30/39] fix: compiling a nested filter condition used a
 released node

---
 JSONPathParser/jsonpath_evaluator.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 4a4b82f..36bb188 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -294,12 +294,13 @@ static inline ASTNode* evaluatorModifyReference(ASTNode* node) {
             strcpy(name, node->left->string);
             strcat(name, ".");
             strcat(name, node->right->string);
-            free(node->left->string);
+            ASTNode* left = node->left;
+            free(left->string);
             free(node->right->string);
             free(node->right);
             free(node);
-            node->left->string = name;
-            return node->left;
+            left->string = name;
+            return left;
         }
     }
     return NULL;
-- 
2.43.0


From 67a5ab72117efadffc56b18022b6f81186056c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:47 +0000
Subject: [PATCH 31/39] fix: restore the line endings of utility.c, changed by
 accident in 16b6a8e

---
 JSONQuery/utility.c | 194 ++++++++++++++++++++++----------------------
 1 file changed, 97 insertions(+), 97 deletions(-)

diff --git a/JSONQuery/utility.c b/JSONQuery/utility.c
index 3f3ba8d..2225c39 100644
--- a/JSONQuery/utility.c
+++ b/JSONQuery/utility.c
@@ -1,97 +1,97 @@
-#include <stdio.h>
-#include <string.h>
-#include <stdlib.h>
-#include "utility.h"
-
-/*************************************************
-Function: void strcopy(char* src,char* dest)
-Description: similar as strcpy
-*************************************************/
-void strcopy(char* src,char* dest)
-{
-	int length=strlen(src);
-	int i;
-	for(i=0;i<=length;i++)
-	{
-		dest[i]=src[i];
-	}
-	dest[i]='\0';
-}
-
-/**************************************************************************
-Function: char* substring(char *pText, int begin, int end);
-Description: print the substring of the original string
-Input: pText--the original string; begin--start position; end--end position;
-Return: the final string
-***************************************************************************/
-char* substring(char *pText, int begin, int end)
-{
-    int i,j;
-    char * temp=pText;
-    char* temp1=NULL; 
-    temp1=(char*)malloc((end-begin+1)*sizeof(char));
-    for (j = 0,i = begin; i < end; i++,j++)
-    {
-        temp1[j]=temp[i];
-    }
-    temp1[j]='\0';
-    return temp1;
-}
-
-/***************************************************************************************************
-Function: char* substring_in_place(char* desc, char *pText, int begin, int end);
-Description: save the substring of pText into a destination string
-Input: desc -- the destination; pText--the original string; begin--start position; end--end position;
-****************************************************************************************************/
-void substring_in_place(char* desc, char *pText, int begin, int end)
-{
-    int i,j;
-    char * temp=pText;
-    for (j = 0,i = begin; i < end; i++,j++)
-    {
-        desc[j]=temp[i];
-    }
-    desc[j]='\0'; 
-}
-
-/******************************************************************************
-Function: char* allocate_and_copy(char *pText);
-Description: allocate new memory spaces and copy the content of original string
-Input: pText--the original string; 
-Return: the new string
-******************************************************************************/
-char* allocate_and_copy(char* pText)
-{
-    char* new = (char*)malloc((strlen(pText)+2)*sizeof(char)); 
-    strcopy(pText, new);
-    return new;
-}
-
-/*************************************************
-Function: char * ltrim(char *s);
-Description: remove the left blankets of a string
-Input: s--the original string; 
-Return: the final substring
-*************************************************/
-char * ltrim(char *s)
-{
-     char *temp;
-     temp = s;
-     while((*temp == ' ')&&temp){*temp++;}
-     return temp;
-}
-
-/*************************************************
-Function: int left_null_count(char *s);
-Description: calculate the number of blanket for each string
-Input: s--the original string; 
-Return: the number of blanket for each string
-*************************************************/
-int left_null_count(char *s)  
-{
-	 int count=0;
-     char *temp;
-     temp = s;
-     while((*temp == ' ')&&temp){*temp++; count++;}
-     return count;
-}
+#include <stdio.h>
+#include <string.h>
+#include <stdlib.h>
+#include "utility.h"
+
+/*************************************************
+Function: void strcopy(char* src,char* dest)
+Description: similar as strcpy
+*************************************************/
+void strcopy(char* src,char* dest)
+{
+	int length=strlen(src);
+	int i;
+	for(i=0;i<=length;i++)
+	{
+		dest[i]=src[i];
+	}
+	dest[i]='\0';
+}
+
+/**************************************************************************
+Function: char* substring(char *pText, int begin, int end);
+Description: print the substring of the original string
+Input: pText--the original string; begin--start position; end--end position;
+Return: the final string
+***************************************************************************/
+char* substring(char *pText, int begin, int end)
+{
+    int i,j;
+    char * temp=pText;
+    char* temp1=NULL; 
+    temp1=(char*)malloc((end-begin+1)*sizeof(char));
+    for (j = 0,i = begin; i < end; i++,j++)
+    {
+        temp1[j]=temp[i];
+    }
+    temp1[j]='\0';
+    return temp1;
+}
+
+/***************************************************************************************************
+Function: char* substring_in_place(char* desc, char *pText, int begin, int end);
+Description: save the substring of pText into a destination string
+Input: desc -- the destination; pText--the original string; begin--start position; end--end position;
+****************************************************************************************************/
+void substring_in_place(char* desc, char *pText, int begin, int end)
+{
+    int i,j;
+    char * temp=pText;
+    for (j = 0,i = begin; i < end; i++,j++)
+    {
+        desc[j]=temp[i];
+    }
+    desc[j]='\0'; 
+}
+
+/******************************************************************************
+Function: char* allocate_and_copy(char *pText);
+Description: allocate new memory spaces and copy the content of original string
+Input: pText--the original string; 
+Return: the new string
+******************************************************************************/
+char* allocate_and_copy(char* pText)
+{
+    char* new = (char*)malloc((strlen(pText)+2)*sizeof(char)); 
+    strcopy(pText, new);
+    return new;
+}
+
+/*************************************************
+Function: char * ltrim(char *s);
+Description: remove the left blankets of a string
+Input: s--the original string; 
+Return: the final substring
+*************************************************/
+char * ltrim(char *s)
+{
+     char *temp;
+     temp = s;
+     while((*temp == ' ')&&temp){*temp++;}
+     return temp;
+}
+
+/*************************************************
+Function: int left_null_count(char *s);
+Description: calculate the number of blanket for each string
+Input: s--the original string; 
+Return: the number of blanket for each string
+*************************************************/
+int left_null_count(char *s)  
+{
+	 int count=0;
+     char *temp;
+     temp = s;
+     while((*temp == ' ')&&temp){*temp++; count++;}
+     return count;
+}
-- 
2.43.0


From 7f0a967eedd098c325cbaed479f30bd1f85e345d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:21 +0000
Subject: [PATCH 32/39] fix: long paths on nested documents overflowed the
 stack tree of a worker

Every open level holds a root pointer for each query state, so paths of ten
steps and 40 open levels inside one chunk exceeded the 500 entries. The arrays
now cover all levels and states, and only the part in use is copied.
---
 JSONQuery/multi_stack.h                 | 33 +++++++++++++++++++------
 JSONQuery/parallel_automata_execution.h | 11 +++++----
 JSONQuery/unit.h                        |  1 -
 JSONQuery/worker_automaton.c            |  4 +--
 4 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index c0687ab..32f40b2 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -2,11 +2,13 @@
 #define __MULTI_STACK_H__
 
 #include <stdlib.h>
+#include <string.h>
 #include "dfa_builder.h"
 #include "tuple_list.h"
 #include "stack.h"
 
-#define MAX_NODE 500 //max node in query stack tree
+#define MAX_STATE 100  //maximum query states
+#define MAX_NODE ((MAX_STACK+1)*MAX_STATE) //max node in query stack tree, every level holds up to one node, parent and root per state
 #define INVALID -1  //invalid state
 
 typedef struct Range{
@@ -48,6 +50,19 @@ typedef struct QueryStacks
     int top_item;
 }QueryStacks;
 
+//copy the part of the stack tree that is in use
+static inline void copyQueryStacks(QueryStacks* dst_qs, QueryStacks* src_qs)
+{
+    dst_qs->num_node = src_qs->num_node;
+    memcpy(dst_qs->node, src_qs->node, src_qs->num_node*sizeof(TreeNode));
+    dst_qs->num_parent_pointers = src_qs->num_parent_pointers;
+    memcpy(dst_qs->parent_pointers, src_qs->parent_pointers, src_qs->num_parent_pointers*sizeof(int));
+    dst_qs->num_root_pointers = src_qs->num_root_pointers;
+    memcpy(dst_qs->root_pointers, src_qs->root_pointers, src_qs->num_root_pointers*sizeof(int));
+    dst_qs->top_item = src_qs->top_item;
+    memcpy(dst_qs->item, src_qs->item, (src_qs->top_item+1)*sizeof(QueryStacksElement));
+}
+
 static inline QueryStacksElement initQueryStacks(QueryStacks* qs, int* start_states, int num_start_states)
 {
     qs->top_item = -1;
@@ -83,13 +98,15 @@ static inline QueryStacksElement pruneQueryPaths(QueryStacks* qs, int* start_sta
         qs_elt.end = qs->num_node - 1;
         return qs_elt;
     }
-    QueryStacks back_qs = *(qs);
-    qs->num_node = 0;
+    TreeNode back_node[MAX_STATE];
     int i;
+    for(i = 0; i<num_start_states; i++)
+        back_node[i] = qs->node[start_states[i]];
+    qs->num_node = 0;
     for(i = 0; i<num_start_states; i++)
     {
         int node_index = (qs->num_node++);
-        qs->node[node_index] = back_qs.node[start_states[i]]; 
+        qs->node[node_index] = back_node[i]; 
     }
     QueryStacksElement qs_elt;
     qs_elt.start = 0;
@@ -110,11 +127,11 @@ static inline QueryStacksElement queryStacksPush(QueryStacks* qs, QueryStacksEle
       during each iteration, parent pointers and root pointers for one single node might not be placed in consecutive position,
       so we need to record them temporarily, and update stack tree after iteration
     */
-    int parent_pointer[MAX_NODE][MAX_NODE];
-    int num_parent_pointer[MAX_NODE];
+    int parent_pointer[MAX_STATE][MAX_STATE];
+    int num_parent_pointer[MAX_STATE];
 
-    int root_pointer[MAX_NODE][MAX_NODE];
-    int num_root_pointer[MAX_NODE];
+    int root_pointer[MAX_STATE][MAX_STATE];
+    int num_root_pointer[MAX_STATE];
 
     for(i = qs_elt.start; i<=qs_elt.end; i++)
     {
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 8562311..8fd4ab4 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -209,7 +209,8 @@ TupleList* combine(ParallelAutomata* pa, ThreadInfo* thread_info, int num_thread
     //get some information for thread 0
     WorkerAutomaton* seq_wa = thread_info[0].worker_automaton;
     SyntaxStack ss = seq_wa->syntax_stack;
-    QueryStacks qs = seq_wa->query_stacks;   
+    QueryStacks qs;
+    copyQueryStacks(&qs, &seq_wa->query_stacks);
     QueryStacksElement qs_elt = seq_wa->query_stacks_element;
     QueryStatesInfo* qs_info = seq_wa->query_states_info;
     UnitList unit_list = seq_wa->unit_list;
@@ -353,7 +354,7 @@ TupleList* combine(ParallelAutomata* pa, ThreadInfo* thread_info, int num_thread
                 if(unit.end>unit.start && streaming!=NULL)
                 {
                     seq_wa->syntax_stack = ss;
-                    seq_wa->query_stacks = qs;
+                    copyQueryStacks(&seq_wa->query_stacks, &qs);
                     seq_wa->query_stacks_element = qs_elt;
                     seq_wa->need_reprocess = REPROCESS;
                     seq_wa->stream_offset = wa->stream_offset+start_index;
@@ -362,7 +363,7 @@ TupleList* combine(ParallelAutomata* pa, ThreadInfo* thread_info, int num_thread
                     printf("the %dth unit in the %dth chunk has been reprocessed successfully\n", j, i);
                     free(streaming);
                     ss = seq_wa->syntax_stack;
-                    qs = seq_wa->query_stacks;
+                    copyQueryStacks(&qs, &seq_wa->query_stacks);
                     qs_elt = seq_wa->query_stacks_element;   
                     if(j==ul.count_units) merge_needed = 0;
                     continue;
@@ -402,7 +403,7 @@ TupleList* combine(ParallelAutomata* pa, ThreadInfo* thread_info, int num_thread
             tuple->text = getMatchedText(pa, thread_info, num_thread, tuple->start_position, tuple->end_position);
     }
     seq_wa->syntax_stack = ss;
-    seq_wa->query_stacks = qs;
+    copyQueryStacks(&seq_wa->query_stacks, &qs);
     seq_wa->query_stacks_element = qs_elt;
     //printf("syntax stack size %d query stack size %d\n", syntaxStackSize(&ss), qs.top_item+1);
     //printf("size of 2-tuple list before filtering %d\n", getTupleListSize(tuple_list));
@@ -446,7 +447,7 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     TupleList* tl = combine(pa, ti, num_cores);
     printf("combiner: finish merging 2-tuple lists\n");
     pa->syntax_stack = ti[0].worker_automaton->syntax_stack;
-    pa->query_stacks = ti[0].worker_automaton->query_stacks;
+    copyQueryStacks(&pa->query_stacks, &ti[0].worker_automaton->query_stacks);
     pa->tuple_list = tl;
     savePendingText(pa, ti, num_cores);
     pa->major_automaton = ti[0].worker_automaton;
diff --git a/JSONQuery/unit.h b/JSONQuery/unit.h
index cf7669c..e44e02e 100644
--- a/JSONQuery/unit.h
+++ b/JSONQuery/unit.h
@@ -5,7 +5,6 @@
 #include "dfa_builder.h"
 #include "tuple_list.h"
 
-#define MAX_STATE 100  //maximum query states
 #define MAX_UNMATCHED_SYMBOL 100 //maximum unmatched symbols
 #define UNIT_UNMATCHED 1 //unit starts with unmatched symbol
 #define UNIT_MATCHED 2   //finish handling unmatched symbol
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 0fab21d..2fd4db5 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -133,7 +133,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     if(wa->need_reprocess==REPROCESS || (wa->id==0&&wa->initial_flag==INITIAL))
     {
         ss = wa->syntax_stack;
-        qs = wa->query_stacks;
+        copyQueryStacks(&qs, &wa->query_stacks);
         qs_elt = wa->query_stacks_element;
     }
     else if(wa->id==0)
@@ -599,7 +599,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     //update syntax stack for worker automaton
     wa->syntax_stack = ss;
     //update query stack for worker automaton
-    wa->query_stacks = qs;
+    copyQueryStacks(&wa->query_stacks, &qs);
     wa->query_stacks_element = qs_elt;
     //printf("syntax size %d query size %d %d %d %d\n", syntaxStackSize(&ss), qs.top_item, wa->query_stacks.top_item, ul->count_units, qs.node[qs_elt.start].query_state);
     //printf("output size %d\n", getTupleListSize(tl));
-- 
2.43.0


From dcbd5c2d6de2ceadf6978b4e36c72278fd1c2d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:53 +0000
Subject: [PATCH 33/39] fix: a partial run linked its tuples to those of the
 previous run

The stack tree kept the index of the last tuple although the tuple list had
been replaced, so a later link was written to a wrong place, for long lists
outside the list, and results were lost.
---
 JSONQuery/multi_stack.h                 | 11 +++++++++++
 JSONQuery/parallel_automata_execution.h |  1 +
 2 files changed, 12 insertions(+)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 32f40b2..9b43234 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -372,6 +372,17 @@ static inline void addTupleInfo(QueryStacks* qs, int node_index, int query_state
      }
 }
 
+//forget the tuples of all nodes, needed when their tuple list has been released
+static inline void clearTupleInfo(QueryStacks* qs)
+{
+    int i;
+    for(i = 0; i<qs->num_node; i++)
+    {
+        qs->node[i].first_tuple_index = -1;
+        qs->node[i].last_tuple_index = -1;
+    }
+}
+
 //similar function as addTupleInfo, but only works for object or array matches
 static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int query_state, int matched_start, int matched_end, TupleList* tl)
 { 
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 8fd4ab4..b85ecad 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -71,6 +71,7 @@ static inline void destroyParallelAutomata(ParallelAutomata* pa)
         {
             pa->tuple_list = createTupleList();
             pa->major_automaton->tuple_list = pa->tuple_list;
+            clearTupleInfo(&pa->major_automaton->query_stacks);
         }
         else if(pa->finish_flag==FINISH)
         {   
-- 
2.43.0


From 805041fa9f8f15315797d104cd288c32a587bf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:53 +0000
Subject: [PATCH 34/39] fix: && binds tighter than || in conditions, and % like
 * and /

Without a precedence of its own, @.a%2==1 was read as @.a%(2==1).
---
 JSONPathParser/parser_j.y | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/JSONPathParser/parser_j.y b/JSONPathParser/parser_j.y
index e62d730..2833428 100644
--- a/JSONPathParser/parser_j.y
+++ b/JSONPathParser/parser_j.y
@@ -39,10 +39,11 @@ void jerror (JLTYPE * yylloc, yyscan_t locp, ASTNode **root, const char *msg);
 %type <node> AllPath LocationPath Number Property IndexList Predicate Expr  
 %start AllPath
 
-%left OR AND
+%left OR
+%left AND
 %left NEQ LEQ GEQ EQ '<' '>'
 %left '+' '-'
-%left '*' '/' 
+%left '*' '/' '%'
 %right '!'
 %left '('
 
-- 
2.43.0


From 1dcccb0c4afcdfd4c7f780b05528cc190412640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:53 +0000
Subject: [PATCH 35/39] fix: % by zero inside a condition ended the process

---
 JSONPathParser/jsonpath_evaluator.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 36bb188..0b532bb 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -150,7 +150,11 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
             return v;
         case jot_mod:
             v.vtype = jvt_number;
-            v.number = (long long int)(v1.number) % (long long int)(v2.number);
+            v.number = 0;
+            //the remainder of a division by zero has no value, dividing by -1 leaves nothing and might overflow
+            if ((long long int)(v2.number) == 0) v.vtype = jvt_null;
+            else if ((long long int)(v2.number) != -1)
+                v.number = (long long int)(v1.number) % (long long int)(v2.number);
             return v;
     }
     return v;
-- 
2.43.0


From db265a40ffd4a4476cf7c6dccbe93f986e2766ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:36 +0000
Subject: [PATCH 36/39] fix: the empty range [0:0] crashed the run

---
 DFABuilder/src/dfa_builder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 35c6eff..77f33b1 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -241,6 +241,8 @@ struct StackContext {
                     else begin = INT_MIN;
                     if (p->right) end = p->right->number;
                     else end = INT_MAX;
+                    // {0, 0} stands for no range, the empty range [0:0] needs other bounds
+                    if (begin == 0 && end == 0) begin = end = 1;
                     push({set_array_index, begin, end});
                     create_dfa();
                     array_range[model->size()-1] = {begin, end};
-- 
2.43.0


From 6c156718383b129f757b7b970f2dc400e0495140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:09 +0000
Subject: [PATCH 37/39] fix: ordering strings in a condition compared their
 heap addresses

---
 JSONPathParser/jsonpath_evaluator.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 0b532bb..68f2d10 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -88,6 +88,17 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
         v1 = computeTypeCast(v1);
         v2 = computeTypeCast(v2);
     }
+    // strings are ordered among themselves, in any other ordering or calculation only numbers have a value
+    else if (opt != jot_equal && opt != jot_neq) {
+        if (v1.vtype == jvt_string && v2.vtype == jvt_string) {
+            int order = (opt <= jot_geq) ? strcmp(v1.string, v2.string) : 0;
+            v1.number = order;
+            v2.number = 0;
+        } else {
+            if (v1.vtype != jvt_number) v1.number = 0;
+            if (v2.vtype != jvt_number) v2.number = 0;
+        }
+    }
     // calculate 
     switch (opt) {
         case jot_or:
-- 
2.43.0


From 0f1b59efef1f0e2cb572f45e79e7763c04d69cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:26 +0000
Subject: [PATCH 38/39] fix: a key whose value was torn off was delivered as a
 match

---
 JSONQuery/streaming_automaton.c | 3 ++-
 JSONQuery/worker_automaton.c    | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index e872de4..468c77b 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -342,7 +342,8 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
                 key(qa, qs_elt, token.content, ss, qs);
                 break;
             case PRI:   //primitive
-                if(syntaxStackSize(ss) >= 1)
+                //a string directly inside an object is a key without a value, the end of a torn stream
+                if(syntaxStackSize(ss) >= 1 && syntaxStackTop(ss)!=LCB)
                 {
                     int matched_type = getMatchedType(qa,qs_elt);
                     if(matched_type==DFA_OUTPUT_CANDIDATE)  
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 2fd4db5..339fa5d 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -110,8 +110,9 @@ static inline void syntaxStackInference(Lexer* lexer, int input_token_type, Synt
     {
         if(first_token.token_type==RCB || (first_token.token_type==COM && second_token.token_type==KY))  //val-pmt
             syntaxStackPush(shadow_ss, KY);
-        else //elt-pmt
+        else if(first_token.token_type!=END) //elt-pmt
             syntaxStackPush(shadow_ss, LB);
+        //otherwise it might be a key without a value, the end of a torn stream
     }
 }
 
@@ -506,6 +507,8 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 key(qa, &qs_elt, token.content, &ss, &qs);
                 break;
             case PRI:   //primitive
+                //a string directly inside an object is a key without a value, the end of a torn stream
+                if(syntaxStackSize(&ss) >= 1 && syntaxStackTop(&ss)==LCB) break;
                 if(syntaxStackSize(&ss) >= 1)
                 {
                     int start_index=qs_elt.start, end_index=qs_elt.end;
-- 
2.43.0


From 7bb23df46329e4f6bc29a704aae76a4c78eb6cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:27 +0000
Subject: [PATCH 39/39] fix: numbers in conditions are read the same way in
 every locale

atof expects the decimal point of the locale of the process. In one with a
comma, 1.5 was read as 1 and -0.5 as 0, so that conditions were decided
wrongly.
---
 JSONPathParser/jsonpath_evaluator.h |  2 +-
 JSONPathParser/jsonpath_model.h     | 19 +++++++++++++++++++
 JSONPathParser/scanner_j.l          |  3 ++-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 68f2d10..9a2c05f 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -199,7 +199,7 @@ static inline JSONPathValue stringToValue(const char* str) {
         return v;
     }
     if (isdigit(str[0]) || str[0] == '-') {
-        v.vtype = jvt_number; v.number = atof(str);
+        v.vtype = jvt_number; v.number = textToNumber(str);
         return v;
     }
     return v;
diff --git a/JSONPathParser/jsonpath_model.h b/JSONPathParser/jsonpath_model.h
index 5202d2b..73da165 100644
--- a/JSONPathParser/jsonpath_model.h
+++ b/JSONPathParser/jsonpath_model.h
@@ -4,12 +4,31 @@
 
 #include <stdlib.h>
 #include <stdio.h>
+#include <string.h>
 #include <stdbool.h>
 
 #ifdef __cplusplus
 extern "C" {
 #endif
 
+//the number in a text, whose decimal point is a dot in every locale
+static inline double textToNumber(const char* text) {
+    const char* dot = strchr(text, '.');
+    if (dot == NULL) return atof(text);
+    //the decimal point atof expects is between the two digits
+    char point[16];
+    sprintf(point, "%.1f", 0.5);
+    point[strlen(point)-1] = '\0';
+    if (strcmp(point + 1, ".") == 0) return atof(text);
+    char* local = (char*) malloc(sizeof(char) * (strlen(text) + strlen(point)));
+    memcpy(local, text, dot - text);
+    strcpy(local + (dot - text), point + 1);
+    strcat(local, dot + 1);
+    double number = atof(local);
+    free(local);
+    return number;
+}
+
 typedef enum ASTNodeType {
     jnt_root, jnt_concat, jnt_parent_concat, jnt_descendants, jnt_id, jnt_operator, jnt_predicate, jnt_wildcard,
     jnt_number, jnt_string, jnt_function, jnt_variable, jnt_attribute, jnt_reference, jnt_script, jnt_fliter, jnt_range
diff --git a/JSONPathParser/scanner_j.l b/JSONPathParser/scanner_j.l
index 6acfec3..cad6bc4 100644
--- a/JSONPathParser/scanner_j.l
+++ b/JSONPathParser/scanner_j.l
@@ -1,11 +1,12 @@
 %{
 
 #include <string.h>
+#include "jsonpath_model.h"
 #include "parser_j.h"
 
 #define SAVE_TOKEN yylval->string = maketoken(yytext, yyleng)
 #define SAVE_STRING yylval->string = makestring(yytext, yyleng)
-#define SAVE_DOUBLE {char* b = maketoken(yytext, yyleng); yylval->number = atof(b); free(b); }
+#define SAVE_DOUBLE {char* b = maketoken(yytext, yyleng); yylval->number = textToNumber(b); free(b); }
 static char* maketoken(const char* data, int len);
 static char* makestring(const char* data, int len);
 
-- 
2.43.0

