From b748c7cbbbb0733074b73400f6b94dbca81e48a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:42 +0000
Subject: [PATCH 01/96] fix: leave the operand stack balanced on every exit of
 the primitives

Several primitives popped arguments and then failed without pushing them
back (or pushed back too many), so that the Smalltalk fallback code ran with
the wrong receiver and arguments; singleStepWaitingOn: popped its receiver
when succeeding; primCompile:ifError: left one extra slot behind and lost its
arguments when the error block could not be called.
---
 libgst/prims.def | 102 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 77 insertions(+), 25 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 98b34e1..dd85051 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -986,7 +986,7 @@ primitive VMpr_LargeInteger_negated [uses_gmp]
     _gst_mpz_from_oop (&b, oop2);
   else
     {
-      UNPOP (2);
+      UNPOP (1);
       PRIM_FAILED;
     }
 
@@ -1152,7 +1152,7 @@ primitive VMpr_LargeInteger_bitInvert [uses_gmp]
     _gst_mpz_from_oop (&a, oop2);
   else
     {
-      UNPOP (2);
+      UNPOP (1);
       PRIM_FAILED;
     }
 
@@ -2951,11 +2951,11 @@ primitive VMpr_Process_singleStepWaitingOn [succeed,fail]
   _gst_primitives_executed++;
 
   oop2 = POP_OOP ();
-  oop1 = POP_OOP ();
+  oop1 = STACKTOP ();
 
   if (is_process_ready (oop1) || is_process_terminating (oop1))
     {
-      UNPOP (2);
+      UNPOP (1);
       PRIM_FAILED;
     }
 
@@ -3215,13 +3215,19 @@ primitive VMpr_String_similarityTo [succeed,fail]
   if (IS_INT(oop2)
       || OOP_FIXED_FIELDS (oop2)
       || (OOP_INSTANCE_SPEC (oop2) & ISP_INDEXEDVARS) != GST_ISP_CHARACTER)
-    PRIM_FAILED;
+    {
+      UNPOP (1);
+      PRIM_FAILED;
+    }
 
 #ifndef OPTIMIZE
   if (IS_INT(oop1)
       || OOP_FIXED_FIELDS (oop1)
       || (OOP_INSTANCE_SPEC (oop1) & ISP_INDEXEDVARS) != GST_ISP_CHARACTER)
-    PRIM_FAILED;
+    {
+      UNPOP (1);
+      PRIM_FAILED;
+    }
 #endif
 
   s1 = STRING_OOP_CHARS (oop1);
@@ -3605,7 +3611,6 @@ primitive VMpr_Symbol_intern [succeed,fail]
       SET_STACKTOP (internedString);
       PRIM_SUCCEEDED;
     }
-  UNPOP (1);
   PRIM_FAILED;
 }
 
@@ -3943,7 +3948,10 @@ primitive VMpr_Behavior_methodsFor [succeed,fail]
 
   _gst_primitives_executed++;
   if (!_gst_current_parser || _gst_current_parser->state != PARSE_DOIT)
-    PRIM_FAILED;
+    {
+      UNPOP (1);
+      PRIM_FAILED;
+    }
 
   _gst_reset_compilation_category ();
   _gst_set_compilation_class (oop1);
@@ -3961,7 +3969,10 @@ primitive VMpr_Behavior_methodsForIfTrue [succeed,fail]
 
   _gst_primitives_executed++;
   if (!_gst_current_parser || _gst_current_parser->state != PARSE_DOIT)
-    PRIM_FAILED;
+    {
+      UNPOP (2);
+      PRIM_FAILED;
+    }
 
   _gst_reset_compilation_category ();
   _gst_set_compilation_class (oop1);
@@ -5266,11 +5277,14 @@ primitive VMpr_Behavior_primCompile [succeed]
 {
   OOP oop1;
   OOP oop2;
+  OOP methodOOP;
   mst_Boolean interrupted;
   _gst_primitives_executed++;
 
-  oop2 = POP_OOP ();
-  oop1 = POP_OOP ();
+  /* Leave the arguments on the stack, so that they are not
+     garbage collected while compiling.  */
+  oop2 = STACK_AT (0);
+  oop1 = STACK_AT (1);
   if (IS_CLASS (oop2, _gst_string_class))
     _gst_push_smalltalk_string (oop2);
   else
@@ -5282,6 +5296,11 @@ primitive VMpr_Behavior_primCompile [succeed]
     _gst_string_new ("still unclassified"));
   _gst_pop_stream (true);
 
+  /* Overwrite the receiver with the last compiled method.  */
+  methodOOP = POP_OOP ();
+  POP_N_OOPS (1);
+  SET_STACKTOP (methodOOP);
+
   if (interrupted)
     stop_execution ();
 
@@ -5294,11 +5313,14 @@ primitive VMpr_Behavior_primCompileIfError [fail,succeed,reload_ip]
   OOP oop1;
   OOP oop2;
   OOP oop3;
+  OOP methodOOP;
   _gst_primitives_executed++;
 
-  oop3 = POP_OOP ();
-  oop2 = POP_OOP ();
-  oop1 = POP_OOP ();
+  /* Leave the arguments on the stack, so that they are not
+     garbage collected while compiling.  */
+  oop3 = STACK_AT (0);
+  oop2 = STACK_AT (1);
+  oop1 = STACK_AT (2);
   if (IS_CLASS (oop3, _gst_block_closure_class))
     {
       mst_Boolean oldReportErrors = _gst_report_errors;
@@ -5328,29 +5350,48 @@ primitive VMpr_Behavior_primCompileIfError [fail,succeed,reload_ip]
 
       else if (_gst_first_error_str != NULL)
 	{
-	  SET_STACKTOP (oop3);	/* block context */
+	  inc_ptr incPtr = INC_SAVE_POINTER ();
+	  OOP fileOOP = _gst_nil_oop;
+	  OOP errorOOP;
+
 	  if (_gst_first_error_file != NULL)
 	    {
-	      PUSH_OOP (_gst_string_new (_gst_first_error_file));
+	      fileOOP = _gst_string_new (_gst_first_error_file);
+	      INC_ADD_OOP (fileOOP);
 	      xfree (_gst_first_error_file);
 	    }
-	  else
-	    PUSH_OOP (_gst_nil_oop);
 
-	  PUSH_INT (_gst_first_error_line);
-	  PUSH_OOP (_gst_string_new (_gst_first_error_str));
+	  errorOOP = _gst_string_new (_gst_first_error_str);
 	  xfree (_gst_first_error_str);
 	  _gst_first_error_str = _gst_first_error_file = NULL;
 	  _gst_report_errors = oldReportErrors;
+	  INC_RESTORE_POINTER (incPtr);
+
+	  /* Replace the receiver and arguments with the block context
+	     and its own arguments.  */
+	  POP_N_OOPS (3);
+	  SET_STACKTOP (oop3);
+	  PUSH_OOP (fileOOP);
+	  PUSH_INT (_gst_first_error_line);
+	  PUSH_OOP (errorOOP);
 	  if (send_block_value (3, 3))
-	    PRIM_FAILED;
+	    {
+	      POP_N_OOPS (3);
+	      SET_STACKTOP (oop1);
+	      PUSH_OOP (oop2);
+	      PUSH_OOP (oop3);
+	      PRIM_FAILED;
+	    }
 	  else
 	    PRIM_SUCCEEDED_RELOAD_IP;
 	}
 
+      /* Overwrite the receiver with the last compiled method.  */
+      methodOOP = POP_OOP ();
+      POP_N_OOPS (2);
+      SET_STACKTOP (methodOOP);
       PRIM_SUCCEEDED;
     }
-  UNPOP (3);
   PRIM_FAILED;
 }
 
@@ -5395,11 +5436,13 @@ primitive VMpr_CFuncDescriptor_addressOf [succeed,fail]
 primitive VMpr_ObjectMemory_snapshot [succeed,fail]
 {
   char *fileName;
+  OOP oop1;
   OOP oop2;
   interp_jmp_buf jb;
   _gst_primitives_executed++;
 
   oop2 = POP_OOP ();
+  oop1 = STACKTOP ();
   if (IS_CLASS (oop2, _gst_string_class))
     {
       mst_Boolean success;
@@ -5434,7 +5477,12 @@ primitive VMpr_ObjectMemory_snapshot [succeed,fail]
 	  PRIM_SUCCEEDED;
         }
       else
-        _gst_set_errno (errno);
+        {
+          _gst_set_errno (errno);
+
+          /* Restore the receiver for the sake of the fallback code.  */
+          SET_STACKTOP (oop1);
+        }
     }
   UNPOP (1);
   PRIM_FAILED;
@@ -5475,7 +5523,10 @@ primitive VMpr_Stream_fileInLine [succeed,fail]
   OOP streamOOP = STACKTOP ();
   
   if (!RECEIVER_IS_OOP (streamOOP))
-    PRIM_FAILED;
+    {
+      UNPOP (numArgs);
+      PRIM_FAILED;
+    }
 
   if (IS_INT (oop1)
       && (IS_NIL (oop3)
@@ -5495,6 +5546,7 @@ primitive VMpr_Stream_fileInLine [succeed,fail]
       PRIM_SUCCEEDED;
     }
 
+  UNPOP (numArgs);
   PRIM_FAILED;
 }
 
@@ -6255,7 +6307,7 @@ primitive VMpr_Random_next [succeed]
   PRIM_SUCCEEDED;
 
  bad:
-  UNPOP (1);
+  UNPOP (numArgs);
   PRIM_FAILED;
 }
 
-- 
2.43.0


From c9dca232c5c3b7672c75865ffb3ddff5dfff1f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:18 +0000
Subject: [PATCH 02/96] fix: do not use object addresses across a possible
 garbage collection

---
 libgst/cint.c        | 35 ++++++++++++++++++--------
 libgst/cint.h        |  6 ++---
 libgst/comp.c        | 21 ++++++++++------
 libgst/dict.c        | 11 +++++---
 libgst/interp-bc.inl |  2 ++
 libgst/interp.c      | 21 ++++++++++------
 libgst/oop.c         |  7 +++++-
 libgst/prims.def     | 60 +++++++++++++++++++++++++++++++-------------
 libgst/re.c          |  1 +
 libgst/vm.def        | 15 +++++++++--
 10 files changed, 127 insertions(+), 52 deletions(-)

diff --git a/libgst/cint.c b/libgst/cint.c
index fdb6ce3..8c8b33e 100644
--- a/libgst/cint.c
+++ b/libgst/cint.c
@@ -327,13 +327,15 @@ my_stat (const char *name,
   result = stat (name, &statOut);
   if (!result)
     {
+      /* Creating a LargeInteger may move OUT.  */
+      OOP sizeOOP = FROM_OFF_T (statOut.st_size);
       gst_stat obj = (gst_stat) OOP_TO_OBJ (out);
       errno = 0;
       obj->st_mode = FROM_INT (statOut.st_mode);
       obj->st_aTime = FROM_INT (adjust_time (statOut.st_atime));
       obj->st_mTime = FROM_INT (adjust_time (statOut.st_mtime));
       obj->st_cTime = FROM_INT (adjust_time (statOut.st_ctime));
-      obj->st_size = FROM_OFF_T (statOut.st_size);
+      obj->st_size = sizeOOP;
     }
   return (result);
 }
@@ -369,13 +371,15 @@ my_lstat (const char *name,
   result = lstat (name, &statOut);
   if (!result)
     {
+      /* Creating a LargeInteger may move OUT.  */
+      OOP sizeOOP = FROM_OFF_T (statOut.st_size);
       gst_stat obj = (gst_stat) OOP_TO_OBJ (out);
       errno = 0;
       obj->st_mode = FROM_INT (statOut.st_mode);
       obj->st_aTime = FROM_INT (adjust_time (statOut.st_atime));
       obj->st_mTime = FROM_INT (adjust_time (statOut.st_mtime));
       obj->st_cTime = FROM_INT (adjust_time (statOut.st_ctime));
-      obj->st_size = FROM_OFF_T (statOut.st_size);
+      obj->st_size = sizeOOP;
     }
   return (result);
 }
@@ -815,16 +819,21 @@ _gst_invalidate_croutine_cache (void)
   cif_cache_generation += 2;
 }
 
+/* The arguments must be fetched anew each time, because converting them
+   may move the context.  */
+#define CONTEXT_ARG(i) \
+  (((gst_method_context) OOP_TO_OBJ (contextOOP))->contextStack[i])
+
 OOP
 _gst_invoke_croutine (OOP cFuncOOP,
 		      OOP receiver,
-		      OOP *args)
+		      OOP contextOOP)
 {
   gst_c_callable desc;
   cdata_type cType;
   cparam result, *local_arg_vec, *arg;
   void *funcAddr, **p_slot, **ffi_arg_vec;
-  OOP *argTypes, oop;
+  OOP argTypesOOP, oop;
   int i, si, fixedArgs, totalArgs, filledArgs;
   mst_Boolean haveVariadic, needPostprocessing;
   inc_ptr incPtr;
@@ -844,15 +853,16 @@ _gst_invoke_croutine (OOP cFuncOOP,
     *p_slot = xcalloc (1, sizeof (cfunc_cif_cache));
 
   desc = (gst_c_callable) OOP_TO_OBJ (cFuncOOP);
-  argTypes = OOP_TO_OBJ (desc->argTypesOOP)->data;
+  argTypesOOP = desc->argTypesOOP;
 
   c_func_cur = *p_slot;
-  fixedArgs = NUM_INDEXABLE_FIELDS (desc->argTypesOOP);
+  fixedArgs = NUM_INDEXABLE_FIELDS (argTypesOOP);
   totalArgs = 0;
   haveVariadic = needPostprocessing = false;
   for (si = i = 0; i < fixedArgs; i++)
     {
-      cType = IS_OOP (argTypes[i]) ? CDATA_COBJECT : TO_INT (argTypes[i]);
+      oop = ARRAY_AT (argTypesOOP, i + 1);
+      cType = IS_OOP (oop) ? CDATA_COBJECT : TO_INT (oop);
       switch (cType)
 	{
 	case CDATA_VOID:
@@ -860,7 +870,7 @@ _gst_invoke_croutine (OOP cFuncOOP,
 
 	case CDATA_VARIADIC:
 	case CDATA_VARIADIC_OOP:
-	  oop = args[si++];
+	  oop = CONTEXT_ARG (si++);
 	  totalArgs += NUM_WORDS (OOP_TO_OBJ (oop));
 	  haveVariadic = true;
 	  break;
@@ -911,7 +921,8 @@ _gst_invoke_croutine (OOP cFuncOOP,
     {
       mst_Boolean res;
 
-      cType = IS_OOP (argTypes[i]) ? CDATA_COBJECT : TO_INT (argTypes[i]);
+      oop = ARRAY_AT (argTypesOOP, i + 1);
+      cType = IS_OOP (oop) ? CDATA_COBJECT : TO_INT (oop);
       if (cType == CDATA_VOID)
         continue;
 
@@ -920,7 +931,7 @@ _gst_invoke_croutine (OOP cFuncOOP,
 				  cType == CDATA_SELF ? CDATA_UNKNOWN : CDATA_OOP);
       else
 	/* Do nothing if it is a void */
-	res = push_smalltalk_obj (args[si++], cType);
+	res = push_smalltalk_obj (CONTEXT_ARG (si++), cType);
 
       if (!res)
         {
@@ -930,6 +941,10 @@ _gst_invoke_croutine (OOP cFuncOOP,
         }
     }
 
+  /* Converting the arguments may have moved the descriptor.  */
+  desc = (gst_c_callable) OOP_TO_OBJ (cFuncOOP);
+  funcAddr = cobject_value (cFuncOOP);
+
   /* If the previous call was done through the same function descriptor,
      the ffi_cif is already ok.  */
   if (c_func_cur->cacheGeneration != cif_cache_generation)
diff --git a/libgst/cint.h b/libgst/cint.h
index fd9c07b..8320590 100644
--- a/libgst/cint.h
+++ b/libgst/cint.h
@@ -123,8 +123,8 @@ extern int _gst_c_type_size (int type);
    of CFunctionDescriptors.  */
 extern void _gst_invalidate_croutine_cache (void);
 
-/* Invokes a C routine.  Arguments passed from Smalltalk are stored starting
-   from ARGS, and the object to which the message that called-out was
+/* Invokes a C routine.  Arguments passed from Smalltalk are the first slots
+   of the context CONTEXTOOP, and the object to which the message that called-out was
    sent is RECEIVER.  CFUNCOOP is the C function descriptor used
    to control the mapping of argument types from Smalltalk to C types
    and determines the mapping of the C function's return type into a
@@ -132,7 +132,7 @@ extern void _gst_invalidate_croutine_cache (void);
    an OOP holding the result otherwise.  */
 extern OOP _gst_invoke_croutine (OOP cFuncOOP,
 				 OOP receiver,
-				 OOP *args) 
+				 OOP contextOOP) 
   ATTRIBUTE_HIDDEN;
 
 /* Defines the mapping between a string function name FUNCNAME and the
diff --git a/libgst/comp.c b/libgst/comp.c
index 8f94ce4..ca70963 100644
--- a/libgst/comp.c
+++ b/libgst/comp.c
@@ -1115,6 +1115,7 @@ compile_block (tree_node blockExpr)
   OOP debugInfo;
   OOP litOOP, blockOOP;
   gst_compiled_block block;
+  mst_Boolean isClean;
   gst_object object;
   inc_ptr incPtr;
   tree_node args;
@@ -1185,7 +1186,8 @@ compile_block (tree_node blockExpr)
 
   INCR_STACK_DEPTH ();
   block = (gst_compiled_block) OOP_TO_OBJ (blockOOP);
-  if (block->header.clean == 0)
+  isClean = (block->header.clean == 0);
+  if (isClean)
     litOOP = make_clean_block_closure (blockOOP);
   else
     litOOP = blockOOP;
@@ -1193,7 +1195,7 @@ compile_block (tree_node blockExpr)
   INC_RESTORE_POINTER (incPtr);
 
   _gst_compile_byte (PUSH_LIT_CONSTANT, add_literal (litOOP));
-  if (block->header.clean != 0)
+  if (!isClean)
     _gst_compile_byte (MAKE_DIRTY_BLOCK, 0);
 }
 
@@ -2083,16 +2085,19 @@ equal_constant (OOP oop,
 	{
 	  gst_deferred_variable_binding binding =
 	    (gst_deferred_variable_binding) OOP_TO_OBJ (oop);
-	  gst_object path = OOP_TO_OBJ (binding->path);
-	  int i, size = NUM_OOPS (path);
-	  OOP *pKey;
+	  OOP keyOOP = binding->key;
+	  OOP pathOOP = binding->path;
+	  int i, size = NUM_OOPS (OOP_TO_OBJ (pathOOP));
 	  tree_node varNode = constExpr->v_const.val.aVal;
 
-	  /* Use <= because we test the key first.  */
-	  for (i = 0, pKey = &binding->key; i <= size; pKey = &path->data[i++])
+	  /* Use <= because we test the key first.  Interning a symbol may
+	     move the objects, so use their OOPs only.  */
+	  for (i = 0; i <= size; i++)
 	    {
+	      if (i > 0)
+		keyOOP = ARRAY_AT (pathOOP, i);
 	      if (!varNode
-		  || *pKey != _gst_intern_string (varNode->v_list.name))
+		  || keyOOP != _gst_intern_string (varNode->v_list.name))
 		return (false);
 
 	      varNode = varNode->v_list.next;
diff --git a/libgst/dict.c b/libgst/dict.c
index 8b37f0f..6321e3e 100644
--- a/libgst/dict.c
+++ b/libgst/dict.c
@@ -1589,8 +1589,8 @@ grow_dictionary (OOP oldDictionaryOOP)
 
   dictionary = instantiate_with (OOP_CLASS (oldDictionaryOOP), 
 				 numFields, &dictionaryOOP);
-  memcpy (dictionary->data, oldDictionary->data, sizeof (PTR) * numFixedFields);
   oldDictionary = OOP_TO_OBJ (oldDictionaryOOP);
+  memcpy (dictionary->data, oldDictionary->data, sizeof (PTR) * numFixedFields);
 
   /* rehash all associations from old dictionary into new one */
   for (i = 0; i < oldNumFields; i++)
@@ -1862,6 +1862,7 @@ _gst_dictionary_add (OOP dictionaryOOP,
     {
       dictionary = grow_dictionary (dictionaryOOP);
       dict = (gst_dictionary) dictionary;
+      association = (gst_association) OOP_TO_OBJ (associationOOP);
     }
 
   index = find_key_or_nil (dictionaryOOP, association->key);
@@ -2167,9 +2168,13 @@ _gst_set_file_stream_file (OOP fileStreamOOP,
   if (buffered)
     {
       char buffer[1024];
+      OOP collectionOOP;
       memset (buffer, 0, sizeof (buffer));
-      fileStream->collection =
-	_gst_counted_string_new (buffer, sizeof (buffer));
+      collectionOOP = _gst_counted_string_new (buffer, sizeof (buffer));
+
+      /* The allocation might have moved the stream.  */
+      fileStream = (gst_file_stream) OOP_TO_OBJ (fileStreamOOP);
+      fileStream->collection = collectionOOP;
       fileStream->ptr = FROM_INT (1);
       fileStream->endPtr = FROM_INT (0);
       fileStream->writePtr = _gst_nil_oop;
diff --git a/libgst/interp-bc.inl b/libgst/interp-bc.inl
index 8819481..89735e4 100644
--- a/libgst/interp-bc.inl
+++ b/libgst/interp-bc.inl
@@ -549,7 +549,9 @@ monitor_byte_codes:
   if UNCOMMON (_gst_abort_execution)
     {
       OOP selectorOOP;
+      EXPORT_REGS ();
       selectorOOP = _gst_intern_string ((char *) _gst_abort_execution);
+      IMPORT_REGS ();
       _gst_abort_execution = NULL;
       SEND_MESSAGE (selectorOOP, 0);
       IMPORT_REGS ();
diff --git a/libgst/interp.c b/libgst/interp.c
index ab67daf..054f070 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -1352,8 +1352,6 @@ resume_suspended_context (OOP oop)
   _gst_this_context_oop = oop;
   thisContext = (gst_method_context) OOP_TO_OBJ (oop);
   sp = thisContext->contextStack + TO_INT (thisContext->spOffset);
-  SET_THIS_METHOD (thisContext->method, GET_CONTEXT_IP (thisContext));
-
 #if ENABLE_JIT_TRANSLATION
   ip = TO_INT (thisContext->ipOffset);
 #endif
@@ -1361,6 +1359,9 @@ resume_suspended_context (OOP oop)
   _gst_temporaries = thisContext->contextStack;
   _gst_self = thisContext->receiver;
   free_lifo_context = lifo_contexts;
+
+  /* This can cause a garbage collection if profiling, so do it last.  */
+  SET_THIS_METHOD (thisContext->method, GET_CONTEXT_IP (thisContext));
 }
 
 
@@ -2094,13 +2095,19 @@ _gst_init_process_system (void)
   processor = (gst_processor_scheduler) OOP_TO_OBJ (_gst_processor_oop);
   if (IS_NIL (processor->processLists))
     {
-      gst_object processLists;
+      OOP processListsOOP, semaphoreOOP;
 
-      processLists = instantiate_with (_gst_array_class, NUM_PRIORITIES,
-				       &processor->processLists);
+      instantiate_with (_gst_array_class, NUM_PRIORITIES, &processListsOOP);
+      processor = (gst_processor_scheduler) OOP_TO_OBJ (_gst_processor_oop);
+      processor->processLists = processListsOOP;
 
       for (i = 0; i < NUM_PRIORITIES; i++)
-	processLists->data[i] = semaphore_new (0);
+	{
+	  semaphoreOOP = semaphore_new (0);
+	  ARRAY_AT (processListsOOP, i + 1) = semaphoreOOP;
+	}
+
+      processor = (gst_processor_scheduler) OOP_TO_OBJ (_gst_processor_oop);
     }
 
   if (IS_NIL (processor->processTimeslice))
@@ -2512,8 +2519,8 @@ _gst_restore_object_pointers (void)
 	}
 #endif /* OPTIMIZE Mon Jul 3 01:21:06 1995 */
 
-      SET_THIS_METHOD (_gst_this_method, GET_CONTEXT_IP (thisContext));
       sp = TO_INT (thisContext->spOffset) + thisContext->contextStack;
+      SET_THIS_METHOD (_gst_this_method, GET_CONTEXT_IP (thisContext));
 
 #ifdef DEBUG_FIXUP
       fflush (stderr);
diff --git a/libgst/oop.c b/libgst/oop.c
index 71e837a..e81ae0d 100644
--- a/libgst/oop.c
+++ b/libgst/oop.c
@@ -1480,6 +1480,7 @@ mourn_objects (void)
   gst_object array;
   long size;
   gst_processor_scheduler processor;
+  OOP arrayOOP;
 
   size = _gst_buffer_size () / sizeof (OOP);
   if (!size)
@@ -1494,8 +1495,12 @@ mourn_objects (void)
   else
     {
       /* Copy the buffer into an Array */
-      array = new_instance_with (_gst_array_class, size, &processor->gcArray);
+      array = new_instance_with (_gst_array_class, size, &arrayOOP);
       _gst_copy_buffer (array->data);
+
+      /* The allocation may have moved PROCESSOR.  */
+      processor = (gst_processor_scheduler) OOP_TO_OBJ (_gst_processor_oop);
+      processor->gcArray = arrayOOP;
       if (!IS_NIL (processor->gcSemaphore))
         {
           static async_queue_entry e;
diff --git a/libgst/prims.def b/libgst/prims.def
index dd85051..b660a6a 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2671,8 +2671,9 @@ primitive VMpr_Continuation_resume [fail,reload_ip]
       gst_continuation cc = (gst_continuation) OOP_TO_OBJ (oop1);
       if (COMMON (!IS_NIL (cc->stack)))
 	{
-	  resume_suspended_context (cc->stack);
+	  OOP stackOOP = cc->stack;
 	  cc->stack = oop3;
+	  resume_suspended_context (stackOOP);
 	  SET_STACKTOP (oop2);
 	  PRIM_SUCCEEDED_RELOAD_IP;
 	}
@@ -5133,18 +5134,25 @@ primitive VMpr_ByteArray_fromCData_size [succeed,fail]
   OOP oop3;
   _gst_primitives_executed++;
 
-  oop3 = POP_OOP ();
-  oop2 = POP_OOP ();
-  oop1 = STACKTOP ();
+  oop3 = STACK_AT (0);
+  oop2 = STACK_AT (1);
+  oop1 = STACK_AT (2);
   if (IS_INT (oop3))
     {
       intptr_t arg3 = TO_INT (oop3);
-      OOP byteArrayOOP =
-	_gst_byte_array_new (cobject_value (oop2), arg3);
+      OOP byteArrayOOP;
+      gst_byte_array byteArray;
+
+      /* OOP2 might point into the heap, so get the address only after
+	 the allocation (and leave the object on the stack until then).  */
+      byteArray = (gst_byte_array)
+	new_instance_with (_gst_byte_array_class, arg3, &byteArrayOOP);
+      if (arg3)
+	memcpy (byteArray->bytes, cobject_value (oop2), arg3);
+      POP_N_OOPS (2);
       SET_STACKTOP (byteArrayOOP);
       PRIM_SUCCEEDED;
     }
-  UNPOP (2);
   PRIM_FAILED;
 }
 
@@ -5156,18 +5164,24 @@ primitive VMpr_String_fromCData_size [succeed,fail]
   OOP oop3;
   _gst_primitives_executed++;
 
-  oop3 = POP_OOP ();
-  oop2 = POP_OOP ();
-  oop1 = STACKTOP ();
+  oop3 = STACK_AT (0);
+  oop2 = STACK_AT (1);
+  oop1 = STACK_AT (2);
   if (IS_INT (oop3))
     {
       intptr_t arg3 = TO_INT (oop3);
-      OOP stringOOP =
-	_gst_counted_string_new (cobject_value (oop2), arg3);
+      OOP stringOOP;
+      gst_string string;
+
+      /* See above.  */
+      string = (gst_string)
+	new_instance_with (_gst_string_class, arg3, &stringOOP);
+      if (arg3)
+	memcpy (string->chars, cobject_value (oop2), arg3);
+      POP_N_OOPS (2);
       SET_STACKTOP (stringOOP);
       PRIM_SUCCEEDED;
     }
-  UNPOP (2);
   PRIM_FAILED;
 }
 
@@ -5177,11 +5191,21 @@ primitive VMpr_String_fromCData [succeed]
   OOP oop1;
   OOP oop2;
   OOP stringOOP;
+  gst_string string;
+  const char *s;
+  size_t len;
   _gst_primitives_executed++;
 
-  oop2 = POP_OOP ();
-  oop1 = STACKTOP ();
-  stringOOP = _gst_string_new (cobject_value (oop2));
+  /* See above.  */
+  oop2 = STACK_AT (0);
+  oop1 = STACK_AT (1);
+  s = cobject_value (oop2);
+  len = s ? strlen (s) : 0;
+  string = (gst_string)
+    new_instance_with (_gst_string_class, len, &stringOOP);
+  if (len)
+    memcpy (string->chars, cobject_value (oop2), len);
+  POP_N_OOPS (1);
   SET_STACKTOP (stringOOP);
   PRIM_SUCCEEDED;
 }
@@ -6097,7 +6121,7 @@ primitive VMpr_CFuncDescriptor_asyncCall [succeed,fail]
   push_jmp_buf (&jb, false, _gst_nil_oop);
   if (setjmp (jb.jmpBuf) == 0)
     resultOOP = _gst_invoke_croutine (cFuncOOP, receiverOOP,
-				   context->contextStack);
+				   contextOOP);
   else
     resultOOP = NULL;
 
@@ -6151,7 +6175,7 @@ primitive VMpr_CFuncDescriptor_call [succeed,fail]
   push_jmp_buf (&jb, false, get_active_process ());
   if (setjmp (jb.jmpBuf) == 0)
     resultOOP = _gst_invoke_croutine (cFuncOOP, receiverOOP,
-				      context->contextStack);
+				      contextOOP);
   else
     resultOOP = NULL;
 
diff --git a/libgst/re.c b/libgst/re.c
index 3f3ec8a..8167262 100644
--- a/libgst/re.c
+++ b/libgst/re.c
@@ -235,6 +235,7 @@ _gst_re_make_cacheable (OOP patternOOP)
   /* No way, must allocate a new Regex object */
   regexOOP = _gst_object_alloc (regexClassOOP, patternLength);
   regex = &STRING_OOP_AT (OOP_TO_OBJ (regexOOP), 1);
+  pattern = &STRING_OOP_AT (OOP_TO_OBJ (patternOOP), 1);
   memcpy (regex, pattern, patternLength);
 
   /* Put it in the cache (we must compile it to check that it
diff --git a/libgst/vm.def b/libgst/vm.def
index 7d48bdf..9709369 100644
--- a/libgst/vm.def
+++ b/libgst/vm.def
@@ -461,6 +461,7 @@ operation AT_SPECIAL ( rec idx -- val ) {
   /* Not the same class that is in the cache, or the primitive failed --
      send the message, and modify the cache if the send is resolved to
      a primitive.  */
+  IMPORT_REGS ();
   last_primitive = 0;
   SEND_MESSAGE (_gst_builtin_selectors[AT_SPECIAL].symbol, 1);
   IMPORT_REGS ();
@@ -494,6 +495,7 @@ operation AT_PUT_SPECIAL ( rec idx val -- res ) {
   /* Not the same class that is in the cache, or the primitive failed --
      send the message, and modify the cache if the send is resolved to
      a primitive.  */
+  IMPORT_REGS ();
   last_primitive = 0;
   SEND_MESSAGE (_gst_builtin_selectors[AT_PUT_SPECIAL].symbol, 2);
   IMPORT_REGS ();
@@ -527,6 +529,7 @@ operation SIZE_SPECIAL ( rec -- val ) {
   /* Not the same class that is in the cache, or the primitive failed --
      send the message, and modify the cache if the send is resolved to
      a primitive.  */
+  IMPORT_REGS ();
   last_primitive = 0;
   SEND_MESSAGE (_gst_builtin_selectors[SIZE_SPECIAL].symbol, 0);
   IMPORT_REGS ();
@@ -560,6 +563,7 @@ operation CLASS_SPECIAL ( rec -- val ) {
   /* Not the same class that is in the cache, or the primitive failed --
      send the message, and modify the cache if the send is resolved to
      a primitive.  */
+  IMPORT_REGS ();
   last_primitive = 0;
   SEND_MESSAGE (_gst_builtin_selectors[CLASS_SPECIAL].symbol, 0);
   IMPORT_REGS ();
@@ -588,7 +592,10 @@ operation VALUE_SPECIAL ( rec -- rec ) {
   if (UNCOMMON (IS_INT (rec))
       || UNCOMMON (OOP_CLASS (rec) != _gst_block_closure_class)
       || UNCOMMON (send_block_value (0, 0)))
-    SEND_MESSAGE (_gst_builtin_selectors[VALUE_SPECIAL].symbol, 0);
+    {
+      IMPORT_REGS ();
+      SEND_MESSAGE (_gst_builtin_selectors[VALUE_SPECIAL].symbol, 0);
+    }
 
   IMPORT_REGS ();
   FETCH;
@@ -600,7 +607,10 @@ operation VALUE_COLON_SPECIAL ( rec blk_arg -- rec blk_arg ) {
   if (UNCOMMON (IS_INT (rec))
       || UNCOMMON (OOP_CLASS (rec) != _gst_block_closure_class)
       || UNCOMMON (send_block_value (1, 0)))
-    SEND_MESSAGE (_gst_builtin_selectors[VALUE_COLON_SPECIAL].symbol, 1);
+    {
+      IMPORT_REGS ();
+      SEND_MESSAGE (_gst_builtin_selectors[VALUE_COLON_SPECIAL].symbol, 1);
+    }
 
   IMPORT_REGS ();
   FETCH;
@@ -840,6 +850,7 @@ operation RETURN_METHOD_STACK_TOP ( val -- val ) {
   EXPORT_REGS ();
   if UNCOMMON (!unwind_method ())
     {
+      IMPORT_REGS ();
       SEND_MESSAGE (_gst_bad_return_error_symbol, 0);
       IMPORT_REGS ();
     }
-- 
2.43.0


From 7d61793fb5d27358665c351dae2693050c6c769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:28 +0000
Subject: [PATCH 03/96] fix: declare C functions with their actual argument and
 result types

---
 kernel/File.st                 |  6 +++---
 packages/digest/md5.st         |  2 +-
 packages/digest/sha1.st        |  2 +-
 packages/gdbm/gdbm-c.st        |  2 +-
 packages/glib/gst-glib.c       |  2 +-
 packages/glut/OpenGlut.st      | 17 ++++++++++++-----
 packages/opengl/OpenGL.st      | 31 +++++++++++++++++++++++--------
 packages/opengl/OpenGLU.st     |  2 +-
 packages/opengl/OpenGLUTess.st |  2 +-
 packages/xml/expat/expat.c     |  3 ++-
 10 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/kernel/File.st b/kernel/File.st
index fa34763..f8d1a48 100644
--- a/kernel/File.st
+++ b/kernel/File.st
@@ -62,7 +62,7 @@ FilePath subclass: File [
     File class >> errno [
 	"Answer the current value of C errno."
 	<category: 'C functions'>
-	<cCall: 'errno' returning: #long args: #()>
+	<cCall: 'errno' returning: #int args: #()>
 	
     ]
 
@@ -86,7 +86,7 @@ FilePath subclass: File [
 
     File class >> setTimeFor: fileName atime: atimeSec mtime: mtimeSec [
 	<category: 'private-C call-outs'>
-	<cCall: 'utime' returning: #int args: #(#string #int #int)>
+	<cCall: 'utime' returning: #int args: #(#string #long #long)>
 	
     ]
 
@@ -226,7 +226,7 @@ FilePath subclass: File [
     File class >> sync [
         <category: 'C call-outs'>
         "Blocking call to the kernel to sync all files to storage"
-        <cCall: 'sync' returning: #int args: #()>
+        <cCall: 'sync' returning: #void args: #()>
     ]
 
     = aFile [
diff --git a/packages/digest/md5.st b/packages/digest/md5.st
index de18a36..77f1ef3 100644
--- a/packages/digest/md5.st
+++ b/packages/digest/md5.st
@@ -44,7 +44,7 @@ MessageDigest subclass: MD5 [
 
     combine: input size: len into: context [
 	<category: 'C call-outs'>
-	<cCall: 'MD5Update' returning: #void args: #(#cObject #int #cObject)>
+	<cCall: 'MD5Update' returning: #void args: #(#cObject #long #cObject)>
 	
     ]
 
diff --git a/packages/digest/sha1.st b/packages/digest/sha1.st
index be49d82..e997858 100644
--- a/packages/digest/sha1.st
+++ b/packages/digest/sha1.st
@@ -44,7 +44,7 @@ MessageDigest subclass: SHA1 [
 
     combine: input size: len into: context [
 	<category: 'C call-outs'>
-	<cCall: 'SHA1Update' returning: #void args: #(#cObject #int #cObject)>
+	<cCall: 'SHA1Update' returning: #void args: #(#cObject #long #cObject)>
 	
     ]
 
diff --git a/packages/gdbm/gdbm-c.st b/packages/gdbm/gdbm-c.st
index aa56b32..fa07d03 100644
--- a/packages/gdbm/gdbm-c.st
+++ b/packages/gdbm/gdbm-c.st
@@ -74,7 +74,7 @@ CObject subclass: GDBM [
 	"int gdbm_delete(dbf, key);"
 
 	<category: 'C call-outs'>
-	<cCall: 'gdbm_delete' returning: #long args: #(#self #cObject)>
+	<cCall: 'gdbm_delete' returning: #int args: #(#self #cObject)>
 	
     ]
 
diff --git a/packages/glib/gst-glib.c b/packages/glib/gst-glib.c
index fb86974..21abc50 100644
--- a/packages/glib/gst-glib.c
+++ b/packages/glib/gst-glib.c
@@ -298,7 +298,7 @@ gst_log_set_handler(const gchar *component)
 		     my_log_handler, NULL);
 }
 
-int
+GType
 gst_type_oop ()
 {
   return G_TYPE_OOP;
diff --git a/packages/glut/OpenGlut.st b/packages/glut/OpenGlut.st
index 797c3de..39e3330 100644
--- a/packages/glut/OpenGlut.st
+++ b/packages/glut/OpenGlut.st
@@ -107,7 +107,7 @@ See OpenGL programming guide for more informations.'>
 	
     ]
 
-    glutDestroyWindow [
+    glutDestroyWindow: aWindow [
 	<category: 'GLUT'>
 	<cCall: 'glutDestroyWindow' returning: #void args: #( #int )>
 	
@@ -220,7 +220,7 @@ See OpenGL programming guide for more informations.'>
 
     glutWarpPointers: aX y: aY [
 	<category: 'GLUT'>
-	<cCall: 'glutPostRedisplay' returning: #void args: #( #int #int )>
+	<cCall: 'glutWarpPointer' returning: #void args: #( #int #int )>
 	
     ]
 
@@ -266,12 +266,19 @@ See OpenGL programming guide for more informations.'>
 	
     ]
 
+    glutCreateMenu [
+	"The C side always uses Glut class>>createMenuEvent as the callback."
+
+	<category: 'GLUT'>
+	<cCall: 'glutCreateMenu' returning: #int args: #( )>
+	
+    ]
+
     glutCreateMenu: aSymbol [
 	"glutCreateMenu A creer... cependant il y a un callback !"
 
 	<category: 'GLUT'>
-	<cCall: 'glutCreateMenu' returning: #int args: #( #smalltalk )>
-	
+	^self glutCreateMenu
     ]
 
     glutDestroyMenu: aMenu [
@@ -461,7 +468,7 @@ See OpenGL programming guide for more informations.'>
 
     glutGetColor: colorNumber component: aComponent [
 	<category: 'GLUT'>
-	<cCall: 'glutGetColor' returning: #void args: #( #int #int )>
+	<cCall: 'glutGetColor' returning: #float args: #( #int #int )>
 	
     ]
 
diff --git a/packages/opengl/OpenGL.st b/packages/opengl/OpenGL.st
index 43a19c5..a42754f 100644
--- a/packages/opengl/OpenGL.st
+++ b/packages/opengl/OpenGL.st
@@ -164,7 +164,7 @@ See OpenGL programming guide for more informations.'>
 
     glTranslated: aX y: aY z: aZ [
 	<category: 'GL'>
-	<cCall: 'glTranslated' returning: #void args: #( #int #int #int )>
+	<cCall: 'glTranslated' returning: #void args: #( #double #double #double )>
 	
     ]
 
@@ -181,6 +181,11 @@ See OpenGL programming guide for more informations.'>
     ]
 
     glLightModelv: target property: aProperty value: aValue [
+	<category: 'GL'>
+	^self glLightModelv: aProperty value: aValue
+    ]
+
+    glLightModelv: aProperty value: aValue [
 	<category: 'GL'>
 	<cCall: 'glLightModelv' returning: #int args: #(#int #smalltalk)>
 	
@@ -537,6 +542,11 @@ See OpenGL programming guide for more informations.'>
     ]
 
     glFogv: target property: aProperty value: aValue [
+	<category: 'Fog'>
+	^self glFogv: aProperty value: aValue
+    ]
+
+    glFogv: aProperty value: aValue [
 	<category: 'Fog'>
 	<cCall: 'glFogv' returning: #int args: #(#int #smalltalk)>
 	
@@ -580,25 +590,30 @@ See OpenGL programming guide for more informations.'>
 
     glTexImage1D: target level: level internalFormat: internalFormat width: aWidht border: aBorder format: aFormat type: aType pixels: pixels [
 	<category: 'Textures'>
-	<cCall: 'glTexImage1D' returning: #int args: #(#int #int #int #int #int #int #int #cObject)>
+	<cCall: 'glTexImage1D' returning: #void args: #(#int #int #int #int #int #int #int #cObject)>
 	
     ]
 
     glTexImage2D: target level: level internalFormat: internalFormat width: aWidht height: aHeight border: aBorder format: aFormat type: aType pixels: pixels [
 	<category: 'Textures'>
-	<cCall: 'glTexImage2D' returning: #int args: #(#int #int #int #int #int #int #int #int #cObject)>
+	<cCall: 'glTexImage2D' returning: #void args: #(#int #int #int #int #int #int #int #int #cObject)>
 	
     ]
 
     glTexSubImage1D: target level: level xoffset: xoffset yoffset: yoffset width: aWidht format: aFormat type: aType pixels: pixels [
 	<category: 'Textures'>
-	<cCall: 'glTexSubImage1D' returning: #int args: #(#int #int #int #int #int #int #int #cObject)>
+	^self glTexSubImage1D: target level: level xoffset: xoffset width: aWidht format: aFormat type: aType pixels: pixels
+    ]
+
+    glTexSubImage1D: target level: level xoffset: xoffset width: aWidht format: aFormat type: aType pixels: pixels [
+	<category: 'Textures'>
+	<cCall: 'glTexSubImage1D' returning: #void args: #(#int #int #int #int #int #int #cObject)>
 	
     ]
 
     glTexSubImage2D: target level: level xoffset: xoffset yoffset: yoffset width: aWidht height: aHeight format: aFormat type: aType pixels: pixels [
 	<category: 'Textures'>
-	<cCall: 'glTexSubImage2D' returning: #int args: #(#int #int #int #int #int #int #int #int #cObject)>
+	<cCall: 'glTexSubImage2D' returning: #void args: #(#int #int #int #int #int #int #int #int #cObject)>
 	
     ]
 
@@ -610,13 +625,13 @@ See OpenGL programming guide for more informations.'>
 
     glTexGenf: coord property: pName value: aValue [
 	<category: 'Textures'>
-	<cCall: 'glTexGeni' returning: #void args: #(#int #int #float)>
+	<cCall: 'glTexGenf' returning: #void args: #(#int #int #float)>
 	
     ]
 
     glMap1: target u1: u1 u2: u2 ustride: uStride uorder: uOrdrer points: arrayOfPoints [
 	<category: 'Map'>
-	<cCall: 'glMap1v' returning: #void args: #(#int #float #float #int #int #smalltalk)>
+	<cCall: 'glMap1v' returning: #void args: #(#int #double #double #int #int #smalltalk)>
 	
     ]
 
@@ -658,7 +673,7 @@ See OpenGL programming guide for more informations.'>
 
     glMapGrid2d: nu u1: u1 u2: u2 nv: nv v1: v1 v2: v2 [
 	<category: 'Map'>
-	<cCall: 'glMapGrid2f' returning: #void args: #(#int #double #double #int #double #double )>
+	<cCall: 'glMapGrid2d' returning: #void args: #(#int #double #double #int #double #double )>
 	
     ]
 
diff --git a/packages/opengl/OpenGLU.st b/packages/opengl/OpenGLU.st
index 3848af7..319af8b 100644
--- a/packages/opengl/OpenGLU.st
+++ b/packages/opengl/OpenGLU.st
@@ -39,7 +39,7 @@ OpenGLInterface extend [
 
     gluLookAt: anEye center: aCenter up: aDirection [
 	<category: 'GLU'>
-	<cCall: 'gluLookAtv' returning: #int args: #( #smalltalk #smalltalk #smalltalk )>
+	<cCall: 'gluLookAtv' returning: #void args: #( #smalltalk #smalltalk #smalltalk )>
 
     ]
 
diff --git a/packages/opengl/OpenGLUTess.st b/packages/opengl/OpenGLUTess.st
index c6e0810..d4ee103 100644
--- a/packages/opengl/OpenGLUTess.st
+++ b/packages/opengl/OpenGLUTess.st
@@ -67,7 +67,7 @@ CObject subclass: Tesselator [
 
     gluTessProperty: aProp value: avalue [
 	<category: 'C interface'>
-	<cCall: 'gluTessProperty' returning: #void args: #(#self #int #float)>
+	<cCall: 'gluTessProperty' returning: #void args: #(#self #int #double)>
 	
     ]
 
diff --git a/packages/xml/expat/expat.c b/packages/xml/expat/expat.c
index 0ceee46..d76beb1 100644
--- a/packages/xml/expat/expat.c
+++ b/packages/xml/expat/expat.c
@@ -478,7 +478,8 @@ gst_EndNamespaceDeclHandler (void *userData,
 
 static void
 gst_SkippedEntityHandler (void *userData,
-			  const XML_Char * entityName)
+			  const XML_Char * entityName,
+			  int is_parameter_entity)
 {
   XML_Parser p = userData;
   OOP parserOOP = XML_GetUserData (p);
-- 
2.43.0


From 4c9e7a4d7a2d5a526edd402586128793edfc2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:16 +0000
Subject: [PATCH 04/96] fix: read #float results of C calls as floats, declare
 the arguments of C calls

---
 libgst/cint.c                            | 2 +-
 packages/cairo/CairoFuncs.st             | 2 +-
 packages/ncurses/ncurses.st              | 2 +-
 packages/sdl/libsdl/SDL.st               | 2 +-
 packages/sdl/libsdl_sound/SDL_cdrom.st   | 2 +-
 packages/visualgst/Gtk/GtkEntryBuffer.st | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libgst/cint.c b/libgst/cint.c
index 8c8b33e..81559f4 100644
--- a/libgst/cint.c
+++ b/libgst/cint.c
@@ -1435,7 +1435,7 @@ c_to_smalltalk (cparam *result, OOP receiverOOP, OOP returnTypeOOP)
       break;
 
     case CDATA_FLOAT:
-      resultOOP = floate_new (result->u.doubleVal);
+      resultOOP = floate_new (result->u.floatVal);
       break;
 
     default:
diff --git a/packages/cairo/CairoFuncs.st b/packages/cairo/CairoFuncs.st
index e0316c0..9657102 100644
--- a/packages/cairo/CairoFuncs.st
+++ b/packages/cairo/CairoFuncs.st
@@ -119,7 +119,7 @@ CairoContext.'>
         <cCall: 'cairo_svg_surface_create' returning: #cObject args: #(#string #double #double)>
     ]
 
-    Cairo class >> showPage: file width: width height: height [
+    Cairo class >> showPage: cr [
         <cCall: 'cairo_show_page' returning: #void args: #(#cObject)>
     ]
 
diff --git a/packages/ncurses/ncurses.st b/packages/ncurses/ncurses.st
index db8beb4..a0dd579 100644
--- a/packages/ncurses/ncurses.st
+++ b/packages/ncurses/ncurses.st
@@ -3572,7 +3572,7 @@ CStruct subclass: NCWindow [
 	
     ]
 
-    wattrGet: cObject2 opts: cObject3 [
+    wattrGet: cObject1 pair: cObject2 opts: cObject3 [
 	"I return the attribute and color pair for my window. See the
 	 man(3) wattr_get entry for a description of my c function call."
 
diff --git a/packages/sdl/libsdl/SDL.st b/packages/sdl/libsdl/SDL.st
index 7b8487b..07099e5 100644
--- a/packages/sdl/libsdl/SDL.st
+++ b/packages/sdl/libsdl/SDL.st
@@ -110,7 +110,7 @@ sdlInitSubSystem: aUint
     <cCall: 'SDL_InitSubSystem' returning: #int 
         args: #( #uInt )>!
 
-sdlQuitSubSystem
+sdlQuitSubSystem: aUint
     "I shut down a subsystem that has been previously initialized by
     SDL_Init or SDL_InitSubSystem. My c function call prototype is:
 
diff --git a/packages/sdl/libsdl_sound/SDL_cdrom.st b/packages/sdl/libsdl_sound/SDL_cdrom.st
index 5ddbfe9..c6124ad 100644
--- a/packages/sdl/libsdl_sound/SDL_cdrom.st
+++ b/packages/sdl/libsdl_sound/SDL_cdrom.st
@@ -171,7 +171,7 @@ sdlCdStop: aObject0
     <cCall: 'SDL_CDStop' returning: #int 
         args: #( #cObject )>!
 
-sdlCdEject
+sdlCdEject: aCobject0
     "I eject the given CD. My C function call prototype:
 
     extern DECLSPEC int SDLCALL SDL_CDEject(SDL_CD *cdrom);"
diff --git a/packages/visualgst/Gtk/GtkEntryBuffer.st b/packages/visualgst/Gtk/GtkEntryBuffer.st
index 27f6fc3..961f289 100644
--- a/packages/visualgst/Gtk/GtkEntryBuffer.st
+++ b/packages/visualgst/Gtk/GtkEntryBuffer.st
@@ -2,7 +2,7 @@ GTK.GtkEntryBuffer extend [
 
     getText [
 
-        <cCall: 'gtk_entry_buffer_get_text' returning: #string args: #( #self #cObject )>
+        <cCall: 'gtk_entry_buffer_get_text' returning: #string args: #( #self )>
     ]
 
 ]
-- 
2.43.0


From fc37dfd0e19696596199a09260d8aa15b530a0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 05/96] fix: answer correctly which methods read an instance
 variable

CompiledCode>>reads: and #accesses: decoded the variable index of simple
accessors from bits of the header that do not hold it, and took the flags
of a CompiledBlock for those of a method.
---
 kernel/CompildCode.st | 4 ----
 kernel/CompildMeth.st | 2 ++
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/kernel/CompildCode.st b/kernel/CompildCode.st
index 4882a3b..7a7f31a 100644
--- a/kernel/CompildCode.st
+++ b/kernel/CompildCode.st
@@ -514,8 +514,6 @@ superclass for blocks and methods'>
 	 index"
 
 	<category: 'testing accesses'>
-	self flags = 2 
-	    ifTrue: [^((header bitShift: -6) bitAnd: 31) = instVarIndex].
 	self allByteCodeIndicesDo: 
 		[:i :byte :operand | 
 		(byte = 35 and: [operand = instVarIndex]) ifTrue: [^true]].
@@ -539,8 +537,6 @@ superclass for blocks and methods'>
 
 	<category: 'testing accesses'>
 	| byte nextByte |
-	self flags = 2 
-	    ifTrue: [^((header bitShift: -6) bitAnd: 31) = instVarIndex].
 	self allByteCodeIndicesDo: 
 		[:i :byte :operand | 
 		((byte = 35 or: [byte = 39]) and: [operand = instVarIndex]) 
diff --git a/kernel/CompildMeth.st b/kernel/CompildMeth.st
index e0be59d..b7ddb70 100644
--- a/kernel/CompildMeth.st
+++ b/kernel/CompildMeth.st
@@ -676,6 +676,7 @@ instances.'>
 	 the instance variable with the given index"
 
 	<category: 'testing'>
+	self flags = 2 ifTrue: [^self primitive = instVarIndex].
 	self allBlocksDo: [:ccode | (ccode reads: instVarIndex) ifTrue: [^true]].
 	^super reads: instVarIndex
     ]
@@ -694,6 +695,7 @@ instances.'>
 	 the instance variable with the given index"
 
 	<category: 'testing'>
+	self flags = 2 ifTrue: [^self primitive = instVarIndex].
 	self 
 	    allBlocksDo: [:ccode | (ccode accesses: instVarIndex) ifTrue: [^true]].
 	^super accesses: instVarIndex
-- 
2.43.0


From bc94a9fb3d100afb46544a9e8b88539678cc0530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 06/96] fix: declare the variables of Process in the order the
 VM uses

Reloading Process.st exchanged interrupts and interruptLock.
---
 kernel/Process.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Process.st b/kernel/Process.st
index 652b841..dcbfe33 100644
--- a/kernel/Process.st
+++ b/kernel/Process.st
@@ -33,7 +33,7 @@
 
 
 Link subclass: Process [
-    | suspendedContext priority myList name environment interruptLock interrupts |
+    | suspendedContext priority myList name environment interrupts interruptLock |
     
     <category: 'Language-Processes'>
     <comment: 'I represent a unit of computation.  My instances are independantly
-- 
2.43.0


From 430de6de421c5885fb4d26a8c95238669a413379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:14 +0000
Subject: [PATCH 07/96] fix: construct file URLs relative to a relative path

---
 kernel/URL.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/URL.st b/kernel/URL.st
index 750dc0b..4b260fd 100644
--- a/kernel/URL.st
+++ b/kernel/URL.st
@@ -463,7 +463,7 @@ Copyright (c) Kazuki Yasumatsu, 1995. All rights reserved.
 				[(path isEmpty not and: [path first = $/]) 
 				    ifTrue: [newURL path: (self constructPath: path with: anURL path)]
 				    ifFalse: 
-					[newURL path: (path asFilename directory constructString: anURL path)]]]
+					[newURL path: (File append: anURL path to: (File pathFor: path))]]]
 		    ifFalse: 
 			[path isNil 
 			    ifTrue: [newURL path: (self constructPath: '/' with: anURL path)]
-- 
2.43.0


From ebb70861269ff1d5fbf605929259ce37e82bd689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:14 +0000
Subject: [PATCH 08/96] fix: answer the decoded file part of an URL

---
 kernel/URL.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/URL.st b/kernel/URL.st
index 4b260fd..ad65468 100644
--- a/kernel/URL.st
+++ b/kernel/URL.st
@@ -547,7 +547,7 @@ Copyright (c) Kazuki Yasumatsu, 1995. All rights reserved.
 	 format."
 
 	<category: 'accessing'>
-	^URL decode: self file
+	^URL decode: self path
     ]
 
     fragment [
-- 
2.43.0


From 25f6cd40e7935f003c732c2ac80c33a8fc668a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:14 +0000
Subject: [PATCH 09/96] fix: spell primitiveFailed correctly

---
 kernel/Object.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/Object.st b/kernel/Object.st
index b5179ed..8339ae9 100644
--- a/kernel/Object.st
+++ b/kernel/Object.st
@@ -854,7 +854,7 @@ All classes in the system are subclasses of me.'>
 	shape == #int ifTrue: [size := 31].
 	shape == #uint64 ifTrue: [size := 64].
 	shape == #int64 ifTrue: [size := 63].
-	size isNil ifTrue: [^self primtiveFailed].
+	size isNil ifTrue: [^self primitiveFailed].
 	^SystemExceptions.ArgumentOutOfRange 
 	    signalOn: object
 	    mustBeBetween: (size odd ifTrue: [-1 bitShift: size] ifFalse: [0])
-- 
2.43.0


From 130783e371c7c4579e517614feb836ea9961bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:14 +0000
Subject: [PATCH 10/96] fix: ask the package directory for the dependencies of
 a package

---
 kernel/PkgLoader.st | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernel/PkgLoader.st b/kernel/PkgLoader.st
index bd645e4..b8069d7 100644
--- a/kernel/PkgLoader.st
+++ b/kernel/PkgLoader.st
@@ -1982,7 +1982,8 @@ into a Smalltalk image, correctly handling dependencies.'>
 	"Answer whether all the needed pre-requisites for package are available."
 
 	<category: 'testing'>
-	self extractDependenciesFor: {package} ifMissing: [:name | ^false].
+	self refresh.
+	root extractDependenciesFor: {package} ifMissing: [:name | ^false].
 	^true
     ]
 
-- 
2.43.0


From c55c98108fc8565a96cadd49203153b34d440560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:14 +0000
Subject: [PATCH 11/96] fix: compare with the argument in peekFor: of
 collecting streams

---
 kernel/StreamOps.st | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kernel/StreamOps.st b/kernel/StreamOps.st
index 348c5bf..3ceffc1 100644
--- a/kernel/StreamOps.st
+++ b/kernel/StreamOps.st
@@ -334,8 +334,8 @@ Stream subclass: CollectingStream [
 	    ifTrue: 
 		[stream pastEnd.
 		^false].
-	result := (block value: stream peek) = anObject result 
-		    ifTrue: [stream next].
+	result := (block value: stream peek) = anObject.
+	result ifTrue: [stream next].
 	^result
     ]
 
-- 
2.43.0


From 16bdc836da376884671066a67730b74b517c7473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:14 +0000
Subject: [PATCH 12/96] fix: send isWriteable to the wrapped file

---
 kernel/VFS.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/VFS.st b/kernel/VFS.st
index 75e214d..88e2c11 100644
--- a/kernel/VFS.st
+++ b/kernel/VFS.st
@@ -248,7 +248,7 @@ virtual files that refer to a real file on disk.'>
 	 and is writeable"
 
 	<category: 'delegation'>
-	^self file isWritable
+	^self file isWriteable
     ]
 
     isExecutable [
-- 
2.43.0


From e2a125e051d95dc143845ad9ebddcd2ca0fd2ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:14 +0000
Subject: [PATCH 13/96] fix: handle both notifications in
 ArchiveMember>>update:

---
 kernel/VFS.st | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kernel/VFS.st b/kernel/VFS.st
index 88e2c11..3d8b2fc 100644
--- a/kernel/VFS.st
+++ b/kernel/VFS.st
@@ -1000,7 +1000,8 @@ extracting files from an archive.'>
 
 	<category: 'file operations'>
 	aspect == #beforeClosing 
-	    ifTrue: [self archive updateMember: self] aspect == #afterClosing
+	    ifTrue: [self archive updateMember: self].
+	aspect == #afterClosing
 	    ifTrue: 
 		[self archive refresh.
 		self refresh]
-- 
2.43.0


From de90b08b83877944803bb51a668dd33580701d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:14 +0000
Subject: [PATCH 14/96] fix: remove the temporary files of an archive when it
 is released

---
 kernel/VFS.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kernel/VFS.st b/kernel/VFS.st
index 3d8b2fc..ad53182 100644
--- a/kernel/VFS.st
+++ b/kernel/VFS.st
@@ -558,7 +558,7 @@ on them, to extract them to a real file, and so on.'>
 		tmpFiles := nil].
 	extractedFiles isNil 
 	    ifFalse: 
-		[extractedFiles do: [:each | self primUnlink: each].
+		[extractedFiles do: [:each | each exists ifTrue: [each remove]].
 		extractedFiles := nil].
 	super release
     ]
-- 
2.43.0


From b52fa2d63d322e801486c67763928cebd4152ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:14 +0000
Subject: [PATCH 15/96] fix: make the associations of a loaded
 WeakKeyDictionary ephemerons again

---
 kernel/WeakObjects.st | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kernel/WeakObjects.st b/kernel/WeakObjects.st
index 8342914..386c56a 100644
--- a/kernel/WeakObjects.st
+++ b/kernel/WeakObjects.st
@@ -335,13 +335,14 @@ in a weak array; I track which of them are garbage collected and, as
 soon as I encounter one of them, I swiftly remove all the associations
 for the garbage collected keys'>
 
-    WeakKeyDictionary class >> postLoad [
+    postLoad [
 	"Called after loading an object; must restore it to the state before
 	 `preStore' was called.  Make it weak again"
 
 	<category: 'hacks'>
 	1 to: self primSize
-	    do: [:i | (self primAt: i) notNil ifTrue: [(self primAt: i) makeEphemeron]]
+	    do: [:i | (self primAt: i) notNil ifTrue: [(self primAt: i) makeEphemeron]].
+	super postLoad
     ]
 
     add: anAssociation [
-- 
2.43.0


From 7701e9a48fd723587b6b9e0d648254fcc4ce8130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 16/96] fix: do not print the SIGUSR1 backtrace from the signal
 handler

Showing the backtrace moves the contexts of the interrupted interpreter to
the heap and uses stdio and malloc; the VM crashed when the signal arrived
at a bad moment.  Queue it for the next sequence point instead.
---
 libgst/interp-bc.inl |  6 +++++-
 libgst/interp.c      | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/libgst/interp-bc.inl b/libgst/interp-bc.inl
index 89735e4..69c38e7 100644
--- a/libgst/interp-bc.inl
+++ b/libgst/interp-bc.inl
@@ -525,7 +525,11 @@ monitor_byte_codes:
 
   /* First, deal with any async signals.  */
   if (async_queue_enabled)
-    empty_async_queue ();
+    {
+      EXPORT_REGS ();
+      empty_async_queue ();
+      IMPORT_REGS ();
+    }
 
   if UNCOMMON (time_to_preempt)
     ACTIVE_PROCESS_YIELD ();
diff --git a/libgst/interp.c b/libgst/interp.c
index 054f070..5cf8d11 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -2591,11 +2591,23 @@ backtrace_on_signal (int sig)
 }
 
 #ifdef SIGUSR1
+static void
+async_show_backtrace (OOP unusedOOP)
+{
+  _gst_show_backtrace (stderr);
+}
+
 static RETSIGTYPE
 user_backtrace_on_signal (int sig)
 {
+  /* Printing is not async-signal-safe, and showing the backtrace moves the
+     contexts to the heap.  So wait for the next sequence point.  */
+  static async_queue_entry e = { async_show_backtrace, NULL, NULL };
+  e.data = _gst_nil_oop;
+  _gst_async_call_internal (&e);
+
   _gst_set_signal_handler (sig, user_backtrace_on_signal);
-  backtrace_on_signal_1 (false, true);
+  _gst_wakeup ();
 }
 #endif
 
-- 
2.43.0


From 56c884146fabd7915fc24abc2e2a0146b341e035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 17/96] fix: restore the parser and compiler state when a
 compilation is interrupted

A user interrupt that arrives while a method is being compiled unwinds
the C stack with longjmp.  Restore the current parser, compiler state,
method, obstack and incubator pointer in pop_jmp_buf.
---
 libgst/interp.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/libgst/interp.c b/libgst/interp.c
index 5cf8d11..6afab88 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -121,6 +121,14 @@ typedef struct interp_jmp_buf
   unsigned char interpreter;
   unsigned char interrupted;
   OOP processOOP;
+
+  /* State of the parser and compiler, which have to be unwound if they are
+     interrupted.  */
+  inc_ptr incPtr;
+  gst_parser *parser;
+  compiler_state *compilerState;
+  tree_node currMethod;
+  struct obstack *compilationObstack;
 }
 interp_jmp_buf;
 
@@ -2782,6 +2790,11 @@ push_jmp_buf (interp_jmp_buf *jb, int for_interpreter, OOP processOOP)
   jb->suspended = 0;
   jb->interpreter = for_interpreter;
   jb->interrupted = false;
+  jb->incPtr = _gst_mem.inc_ptr - _gst_mem.inc_base;
+  jb->parser = _gst_current_parser;
+  jb->compilerState = _gst_compiler_state;
+  jb->currMethod = _gst_curr_method;
+  jb->compilationObstack = _gst_compilation_obstack;
   _gst_register_oop (processOOP);
   reentrancy_jmp_buf = jb;
 }
@@ -2792,6 +2805,16 @@ pop_jmp_buf (void)
   interp_jmp_buf *jb = reentrancy_jmp_buf;
   reentrancy_jmp_buf = jb->next;
 
+  if (jb->interrupted)
+    {
+      /* The interrupted code might not have had a chance to do this.  */
+      _gst_mem.inc_ptr = _gst_mem.inc_base + jb->incPtr;
+      _gst_current_parser = jb->parser;
+      _gst_compiler_state = jb->compilerState;
+      _gst_curr_method = jb->currMethod;
+      _gst_compilation_obstack = jb->compilationObstack;
+    }
+
   if (jb->interpreter && !is_process_terminating (jb->processOOP))
     _gst_terminate_process (jb->processOOP);
     
-- 
2.43.0


From 75801f313cbd53bb30edb785b4d8d46fc9d25913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:34 +0000
Subject: [PATCH 18/96] fix: release the temporary roots of a C call whose
 function is not found

---
 libgst/cint.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libgst/cint.c b/libgst/cint.c
index 81559f4..79e90a2 100644
--- a/libgst/cint.c
+++ b/libgst/cint.c
@@ -846,7 +846,10 @@ _gst_invoke_croutine (OOP cFuncOOP,
 
   funcAddr = cobject_value (cFuncOOP);
   if (!funcAddr)
-    return (NULL);
+    {
+      INC_RESTORE_POINTER (incPtr);
+      return (NULL);
+    }
 
   p_slot = pointer_map_insert (cif_cache, cFuncOOP);
   if (!*p_slot)
-- 
2.43.0


From 92b21741f97b9ad362aae1b206810b5c2f075df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:03 +0000
Subject: [PATCH 19/96] fix: release the bytecode buffer when creating a
 CompiledBlock

---
 libgst/prims.def | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libgst/prims.def b/libgst/prims.def
index b660a6a..822777d 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2215,6 +2215,7 @@ primitive VMpr_CompiledBlock_create [succeed]
   OOP block =
     _gst_block_new (blockArgs, blockTemps, bytecodes, depth, _gst_literals);
 
+  _gst_free_bytecodes (bytecodes);
   POP_N_OOPS (5);
   OOP_CLASS(block) = STACKTOP ();
 
-- 
2.43.0


From f64b13d9e52405c4c02b3f9e96e43aca2c29bf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 20/96] fix: release the temporary when a LargeInteger does not
 fit a Float

---
 libgst/prims.def | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libgst/prims.def b/libgst/prims.def
index 822777d..461bb03 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -1381,6 +1381,7 @@ primitive VMpr_LargeInteger_asFloatD [uses_gmp]
       PRIM_SUCCEEDED;
     }
 
+  _gst_mpz_clear (&a);
   UNPOP (1);
 #endif
   PRIM_FAILED;
@@ -1414,6 +1415,7 @@ primitive VMpr_LargeInteger_asFloatE [uses_gmp]
       PRIM_SUCCEEDED;
     }
 
+  _gst_mpz_clear (&a);
   UNPOP (1);
 #endif
   PRIM_FAILED;
@@ -1447,6 +1449,7 @@ primitive VMpr_LargeInteger_asFloatQ [uses_gmp]
       PRIM_SUCCEEDED;
     }
 
+  _gst_mpz_clear (&a);
   UNPOP (1);
 #endif
   PRIM_FAILED;
-- 
2.43.0


From ce46f0966691354290fd2d43be9ffcfafcd2f908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 21/96] fix: release the buffer when the host name cannot be
 obtained

---
 libgst/sockets.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libgst/sockets.c b/libgst/sockets.c
index acf4cd5..0af99de 100644
--- a/libgst/sockets.c
+++ b/libgst/sockets.c
@@ -149,7 +149,10 @@ myGetHostName (void)
 
     ret = uname (&utsname);
     if (ret < 0)
-      return NULL;
+      {
+	free (result);
+	return NULL;
+      }
 
     strncpy (result, utsname.nodename, 128);
     result[127] = '\0';
-- 
2.43.0


From f0b9e909b5f9607997eb786ef774327426264e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 22/96] fix: release the buffer when /proc does not name the
 executable

---
 libgst/sysdep/posix/findexec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libgst/sysdep/posix/findexec.c b/libgst/sysdep/posix/findexec.c
index 2f96fdd..8eae72c 100644
--- a/libgst/sysdep/posix/findexec.c
+++ b/libgst/sysdep/posix/findexec.c
@@ -143,6 +143,7 @@ find_executable (const char *argv0)
         location[n] = '\0';
         return location;
       }
+    xfree (location);
     if (executable_fd < 0)
       executable_fd = open (buf, O_RDONLY, 0);
   }
-- 
2.43.0


From 9cbbd967c4c596e0d4b15469e613b3f1cb1b77f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 23/96] fix: undo the registration of a poll with an invalid
 condition

---
 libgst/sysdep/posix/events.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libgst/sysdep/posix/events.c b/libgst/sysdep/posix/events.c
index 39d6ea9..c273055 100644
--- a/libgst/sysdep/posix/events.c
+++ b/libgst/sysdep/posix/events.c
@@ -432,6 +432,8 @@ _gst_async_file_polling (int fd,
       pollfds[index].events = POLLPRI;
       break;
     default:
+      --num_used_pollfds;
+      xfree (new);
       return -1;
     }
   pollfds[index].revents = 0;
-- 
2.43.0


From ee11869cfda0c9126ccbe81da67bf4ec3d75f93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 24/96] fix: release bytecodes and attributes when a method has
 a bad primitive number

---
 libgst/comp.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/libgst/comp.c b/libgst/comp.c
index ca70963..0469993 100644
--- a/libgst/comp.c
+++ b/libgst/comp.c
@@ -2593,14 +2593,12 @@ _gst_make_new_method (int numArgs,
           if (!IS_INT (arguments->data[0]))
             {
               _gst_errorf ("bad primitive number, expected SmallInteger");
-              INC_RESTORE_POINTER (incPtr);
-              return _gst_nil_oop;
+              goto fail;
             }
           if (primitiveIndex > 0)
             {
               _gst_errorf ("duplicate primitive number");
-              INC_RESTORE_POINTER (incPtr);
-              return _gst_nil_oop;
+              goto fail;
             }
           primitiveIndex = TO_INT (arguments->data[0]);
           if (_gst_declare_tracing)
@@ -2609,8 +2607,7 @@ _gst_make_new_method (int numArgs,
           if (primitiveIndex <= 0 || primitiveIndex >= NUM_PRIMITIVES)
             {
               _gst_errorf ("primitive number out of range");
-              INC_RESTORE_POINTER (incPtr);
-              return _gst_nil_oop;
+              goto fail;
             }
 	}
       else if (selectorOOP == _gst_category_symbol)
@@ -2700,6 +2697,14 @@ _gst_make_new_method (int numArgs,
   method = method_new (header, literalsOOP, bytecodes, class, methodDesc);
   INC_RESTORE_POINTER (incPtr);
   return (method);
+
+fail:
+  /* The bytecodes are ours, and the attributes seen so far must not end
+     in the next method.  */
+  _gst_free_bytecodes (bytecodes);
+  method_attrs = NULL;
+  INC_RESTORE_POINTER (incPtr);
+  return _gst_nil_oop;
 }
 
 OOP
-- 
2.43.0


From c822c5cedb925bcbf45ce1d42b581f74e0003a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:41 +0000
Subject: [PATCH 25/96] fix: release the copies of strings passed to C as
 variadic or untyped arguments

---
 libgst/cint.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libgst/cint.c b/libgst/cint.c
index 79e90a2..29ce91f 100644
--- a/libgst/cint.c
+++ b/libgst/cint.c
@@ -875,14 +875,16 @@ _gst_invoke_croutine (OOP cFuncOOP,
 	case CDATA_VARIADIC_OOP:
 	  oop = CONTEXT_ARG (si++);
 	  totalArgs += NUM_WORDS (OOP_TO_OBJ (oop));
-	  haveVariadic = true;
+	  haveVariadic = needPostprocessing = true;
 	  break;
 
         case CDATA_SELF:
 	case CDATA_SELF_OOP:
+	  needPostprocessing = true;
 	  totalArgs++;
 	  break;
 
+        case CDATA_UNKNOWN:
         case CDATA_COBJECT_PTR:
         case CDATA_WSTRING_OUT:
         case CDATA_STRING_OUT:
-- 
2.43.0


From 63d51090a20df3c2741f407efd4efc10caa94893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:16 +0000
Subject: [PATCH 26/96] fix: release the copy of a class name that is not found

---
 libgst/callin.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libgst/callin.c b/libgst/callin.c
index dd30511..344be33 100644
--- a/libgst/callin.c
+++ b/libgst/callin.c
@@ -469,7 +469,10 @@ _gst_class_name_to_oop (const char *name)
       key = _gst_intern_string (prev_p);
       result = dictionary_at (result, key);
       if (IS_NIL (result))
-	return NULL;
+	{
+	  free (s);
+	  return NULL;
+	}
     }
 
   free (s);
-- 
2.43.0


From 9232fc8f95a898a0389780834c6de5165e410b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:55 +0000
Subject: [PATCH 27/96] fix: remove the extension bytes of a push that is
 optimised away

---
 libgst/opt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libgst/opt.c b/libgst/opt.c
index 32f01f6..9cbadf2 100644
--- a/libgst/opt.c
+++ b/libgst/opt.c
@@ -808,10 +808,12 @@ optimize_basic_block (gst_uchar *from,
         case PUSH_SELF:
         case PUSH_SPECIAL:
         case PUSH_LIT_CONSTANT:
-	  /* Remove a push followed by a pop */
+	  /* Remove a push followed by a pop, with any extension of the push */
           if (bp < to - 2
 	      && bp[2] == POP_STACK_TOP)
 	    {
+	      while (opt >= from + 2 && opt[-2] == EXT_BYTE)
+		opt -= 2;
 	      bp += 4;
 	      continue;
 	    }
-- 
2.43.0


From cefd740a5a2db4d16a708b4984f89ec40893a2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:56 +0000
Subject: [PATCH 28/96] fix: refuse truncated images and report failing close
 when saving

---
 libgst/save.c | 192 ++++++++++++++++++++++++++++----------------------
 1 file changed, 109 insertions(+), 83 deletions(-)

diff --git a/libgst/save.c b/libgst/save.c
index be980a7..a5a219b 100644
--- a/libgst/save.c
+++ b/libgst/save.c
@@ -54,7 +54,6 @@
 
 #include "gstpriv.h"
 
-#define READ_BUFFER_SIZE 524288
 #define WRITE_BUFFER_SIZE 65536
 
 /* These flags help defining the flags and checking whether they are
@@ -121,16 +120,10 @@ save_file_header;
 static char *buf;
 
 /* The position in the buffer.  */
-static int buf_pos;
+static size_t buf_pos;
 
 /* The size of the buffer.  */
-static int buf_size;
-
-/* The size of the input file (for buffered input only).  */
-static off_t file_size;
-
-/* The current position in the file (for buffered input only).  */
-static off_t file_pos;
+static size_t buf_size;
 
 /* Whether we are using mmap to read the file.  */
 static mst_Boolean buf_used_mmap;
@@ -153,31 +146,30 @@ static void buffer_write_flush (int imageFd);
    IMAGEFD.  */
 static void buffer_write (int imageFd,
 			  PTR data,
-			  int numBytes);
+			  size_t numBytes);
 
-/* This function establishes a buffer of size NUMBYTES for reads.  The
-   base of the buffer is returned if mmap was used.  */
-static char *buffer_read_init (int imageFd,
-			       int numBytes);
+/* This function makes the whole image file whose descriptor is IMAGEFD
+   available for reads, using mmap if possible.  Answer whether it
+   succeeded.  */
+static mst_Boolean buffer_read_init (int imageFd);
 
 /* This function frees the buffer used for reads.  */
 static void buffer_read_free (int imageFd);
 
-/* This function, which only works if memory-mapped I/O is used, advances
-   the buffer pointer by NUMBYTES and returns the pointer to the previous
-   value of the buffer pointer.  */
+/* This function advances the buffer pointer by NUMBYTES and returns the
+   pointer to the previous value of the buffer pointer.  */
 static inline PTR buffer_advance (int imageFd,
-				  int numBytes);
+				  size_t numBytes);
 
-/* This function buffers reads from the image file whose descriptor
-   is IMAGEFD.  Memory-mapped I/O is used is possible.  */
+/* This function copies the next NUMBYTES bytes of the image file whose
+   descriptor is IMAGEFD.  */
 static void buffer_read (int imageFd,
 			 PTR data,
-			 int numBytes);
+			 size_t numBytes);
 
-/* This function fills the buffer used by buffer_read.  It is used
-   internally by buffer_read.  */
-static void buffer_fill (int imageFd);
+/* This function checks that the image file is as long as its header,
+   which has just been read into HEADERP, and its OOP table tell.  */
+static mst_Boolean check_image_size (save_file_header *headerp);
 
 /* This function saves the object pointed to by OOP on the image-file
    whose descriptor is IMAGEFD.  */
@@ -187,7 +179,7 @@ static void save_object (int imageFd,
 /* This function copies NUMBYTES from SRC to DEST, tweaking some fields
    depending on the class.  */
 static inline void fixup_object (OOP oop, gst_object dest, gst_object src,
-				 int numBytes);
+				 size_t numBytes);
 
 /* This function inverts the endianness of SIZE long-words, starting at
    BUF.  */
@@ -296,9 +288,18 @@ _gst_save_to_file (const char *fileName)
         }
 
       save_errno = errno;
-      close (imageFd);
+      if (close (imageFd) == -1 && success)
+	{
+	  save_errno = errno;
+	  success = false;
+	}
       if (!success)
-        unlink (fileName);
+	{
+          unlink (fileName);
+	  if (buf)
+	    xfree (buf);
+	  buf = NULL;
+	}
       if (myOOPTable)
         xfree (myOOPTable);
       myOOPTable = NULL;
@@ -406,7 +407,7 @@ save_object (int imageFd,
 	     OOP oop)
 {
   gst_object object, saveObject;
-  int numBytes;
+  size_t numBytes;
 
 #ifdef SNAPSHOT_TRACE
   printf (">Save ");
@@ -470,8 +471,10 @@ _gst_load_from_file (const char *fileName)
   int imageFd;
 
   imageFd = _gst_open_file (fileName, "r");
-  loaded = (imageFd >= 0) && load_snapshot (imageFd);
+  if (imageFd < 0)
+    return (false);
 
+  loaded = load_snapshot (imageFd);
   close (imageFd);
   return (loaded);
 }
@@ -483,12 +486,18 @@ load_snapshot (int imageFd)
   int prim_table_matches;
   char *base, *end;
 
-  base = buffer_read_init (imageFd, READ_BUFFER_SIZE);
-  if (!load_file_version (imageFd, &header))
+  if (!buffer_read_init (imageFd))
     return false;
+  base = buf;
+  if (!load_file_version (imageFd, &header)
+      || !check_image_size (&header))
+    {
+      buffer_read_free (imageFd);
+      return false;
+    }
 
 #ifdef SNAPSHOT_TRACE
-  printf ("After loading header: %lld\n", file_pos + buf_pos);
+  printf ("After loading header: %lld\n", (long long) buf_pos);
 #endif /* SNAPSHOT_TRACE */
 
   _gst_init_mem (header.edenSpaceSize, header.survSpaceSize,
@@ -505,7 +514,7 @@ load_snapshot (int imageFd)
   load_oop_table (imageFd);
 
 #ifdef SNAPSHOT_TRACE
-  printf ("After loading OOP table: %lld\n", file_pos + buf_pos);
+  printf ("After loading OOP table: %lld\n", (long long) buf_pos);
 #endif /* SNAPSHOT_TRACE */
 
   end = load_normal_oops (imageFd);
@@ -516,7 +525,7 @@ load_snapshot (int imageFd)
     }
 
 #ifdef SNAPSHOT_TRACE
-  printf ("After loading objects: %lld\n", file_pos + buf_pos);
+  printf ("After loading objects: %lld\n", (long long) buf_pos);
 #endif /* SNAPSHOT_TRACE */
 
   if (ot_delta)
@@ -539,8 +548,11 @@ mst_Boolean
 load_file_version (int imageFd,
 		   save_file_header * headerp)
 {
+  if (buf_size < sizeof (save_file_header))
+    return (false);
+
   buffer_read (imageFd, headerp, sizeof (save_file_header));
-  if (strcmp (headerp->signature, SIGNATURE))
+  if (strncmp (headerp->signature, SIGNATURE, sizeof (headerp->signature)))
     return (false);
 
   /* different sizeof(PTR) not supported */
@@ -575,6 +587,35 @@ load_file_version (int imageFd,
   return (true);
 }
 
+mst_Boolean
+check_image_size (save_file_header *headerp)
+{
+  size_t left = buf_size - sizeof (save_file_header);
+  size_t i, size;
+  struct oop_s oop;
+
+  if (headerp->oopTableSize == 0
+      || headerp->oopTableSize > left / sizeof (struct oop_s))
+    return (false);
+
+  left -= sizeof (struct oop_s) * headerp->oopTableSize;
+  for (i = 0; i < headerp->oopTableSize; i++)
+    {
+      memcpy (&oop, buf + buf_pos + i * sizeof (struct oop_s), sizeof (oop));
+      if UNCOMMON (wrong_endianness)
+	fixup_byte_order (&oop, sizeof (struct oop_s) / sizeof (PTR));
+      if (IS_OOP_FREE (&oop))
+	continue;
+
+      size = (size_t) oop.object;
+      if (size > left / sizeof (PTR))
+	return (false);
+      left -= size * sizeof (PTR);
+    }
+
+  return (true);
+}
+
 void
 load_oop_table (int imageFd)
 {
@@ -600,7 +641,7 @@ load_normal_oops (int imageFd)
 #ifdef NO_SIGSEGV_HANDLING
       0 &&
 #endif 
-      buf_used_mmap && ~wrong_endianness && ot_delta == 0;
+      buf_used_mmap && !wrong_endianness && ot_delta == 0;
 
   /* Now walk the oop table.  Load the data (or get the addresses from the
      mmap-ed area) and fix the byte order.  */
@@ -691,7 +732,7 @@ load_normal_oops (int imageFd)
    loading and saving */
 
 void
-fixup_object (OOP oop, gst_object dest, gst_object src, int numBytes)
+fixup_object (OOP oop, gst_object dest, gst_object src, size_t numBytes)
 {
   OOP class_oop;
   memcpy (dest, src, numBytes);
@@ -842,13 +883,14 @@ buffer_write_flush (int imageFd)
 {
   full_write (imageFd, buf, buf_pos);
   xfree (buf);
+  buf = NULL;
   buf_pos = 0;
 }
 
 void
 buffer_write (int imageFd,
 	      PTR data,
-	      int numBytes)
+	      size_t numBytes)
 {
   if UNCOMMON (buf_pos + numBytes > buf_size)
     {
@@ -865,42 +907,47 @@ buffer_write (int imageFd,
     }
 }
 
-void
-buffer_fill (int imageFd)
-{
-  buf_pos = 0;
-  read (imageFd, buf, buf_size);
-}
-
-char *
-buffer_read_init (int imageFd, int numBytes)
+mst_Boolean
+buffer_read_init (int imageFd)
 {
   struct stat st;
-  fstat (imageFd, &st);
-  file_size = st.st_size;
-  file_pos = 0;
+  size_t pos;
+  ssize_t num;
+
+  if (fstat (imageFd, &st) == -1)
+    return (false);
+
+  buf_size = st.st_size;
+  buf_pos = 0;
 
 #ifndef WIN32
 #ifdef NO_SIGSEGV_HANDLING
-  buf = mmap (NULL, file_size, PROT_READ|PROT_WRITE, MAP_PRIVATE, imageFd, 0);
+  buf = mmap (NULL, buf_size, PROT_READ|PROT_WRITE, MAP_PRIVATE, imageFd, 0);
 #else
-  buf = mmap (NULL, file_size, PROT_READ, MAP_PRIVATE, imageFd, 0);
+  buf = mmap (NULL, buf_size, PROT_READ, MAP_PRIVATE, imageFd, 0);
 #endif
 
   if (buf != (PTR) -1)
     {
-      buf_size = file_size;
       buf_used_mmap = true;
-      return buf;
+      return (true);
     }
 #endif /* !WIN32 */
 
-  /* Non-mmaped input.  */
+  /* Non-mmaped input: read the whole file.  */
   buf_used_mmap = false;
-  buf_size = numBytes;
-  buf = xmalloc (buf_size);
-  buffer_fill (imageFd);
-  return NULL;
+  buf = xmalloc (buf_size + 1);
+  for (pos = 0; pos < buf_size; pos += num)
+    {
+      num = _gst_read (imageFd, buf + pos, buf_size - pos);
+      if (num <= 0)
+	{
+	  xfree (buf);
+	  return (false);
+	}
+    }
+
+  return (true);
 }
 
 void
@@ -914,7 +961,7 @@ buffer_read_free (int imageFd)
 
 PTR
 buffer_advance (int imageFd,
-	        int numBytes)
+	        size_t numBytes)
 {
   PTR current_pos = buf + buf_pos;
   buf_pos += numBytes;
@@ -923,30 +970,9 @@ buffer_advance (int imageFd,
 
 void
 buffer_read (int imageFd,
-	     PTR pdata,
-	     int numBytes)
+	     PTR data,
+	     size_t numBytes)
 {
-  char *data = (char *) pdata;
-
-  if UNCOMMON (numBytes > buf_size - buf_pos)
-    {
-      memcpy (data, buf + buf_pos, buf_size - buf_pos);
-      data += buf_size - buf_pos;
-      numBytes -= buf_size - buf_pos;
-      file_pos += buf_size;
-      if (numBytes > buf_size)
-	{
-	  lseek (imageFd, file_pos, SEEK_SET);
-	  read (imageFd, data, numBytes & -buf_size);
-	  file_pos += numBytes & -buf_size;
-          data += numBytes & -buf_size;
-	  numBytes -= numBytes & -buf_size;
-	}
-
-      /* else fill in the buffer and load the rest */
-      buffer_fill (imageFd);
-    }
-
   memcpy (data, buf + buf_pos, numBytes);
   buf_pos += numBytes;
 }
-- 
2.43.0


From b998d3d899ece35b26b644cc30d25826757329c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:25 +0000
Subject: [PATCH 29/96] fix: look at errno only after a read, write, send or
 receive that failed

---
 libgst/sysdep/common/files.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/libgst/sysdep/common/files.c b/libgst/sysdep/common/files.c
index 685b285..9ff49a4 100644
--- a/libgst/sysdep/common/files.c
+++ b/libgst/sysdep/common/files.c
@@ -347,16 +347,16 @@ _gst_recv (int fd,
   for (;;)
     {
       result = recvfrom (FD_TO_SOCKET (fd), buffer, size, flags, NULL, NULL);
-      if (is_socket_error (EFAULT))
+      if (result == -1 && is_socket_error (EFAULT))
         abort ();
 
-      if (is_socket_error (EINTR))
+      if (result == -1 && is_socket_error (EINTR))
 	clear_socket_error ();
       else
 	break;
     }
 
-  if (errno == EINTR)
+  if (result != -1)
     errno = save_errno;
 
   return result;
@@ -379,16 +379,16 @@ _gst_send (int fd,
   for (;;)
     {
       result = send (FD_TO_SOCKET (fd), buffer, size, flags);
-      if (is_socket_error (EFAULT))
+      if (result == -1 && is_socket_error (EFAULT))
         abort ();
 
-      if (is_socket_error (EINTR))
+      if (result == -1 && is_socket_error (EINTR))
 	clear_socket_error ();
       else
 	break;
     }
 
-  if (errno == EINTR)
+  if (result != -1)
     errno = save_errno;
 
   return result;
@@ -409,11 +409,11 @@ _gst_read (int fd,
   do
     {
       result = read (fd, buffer, size);
-      if (errno == EFAULT)
+      if (result == -1 && errno == EFAULT)
         abort ();
     }
   while (result == -1 && errno == EINTR);
-  if (errno == EINTR)
+  if (result != -1)
     errno = save_errno;
 
   return result;
@@ -430,11 +430,11 @@ _gst_write (int fd,
   do
     {
       result = write (fd, buffer, size);
-      if (errno == EFAULT)
+      if (result == -1 && errno == EFAULT)
         abort ();
     }
   while (result == -1 && errno == EINTR);
-  if (errno == EINTR)
+  if (result != -1)
     errno = save_errno;
 
   return result;
-- 
2.43.0


From b626a8b64e9d6bf2dc7de2d8a6624bd40c3d592e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:25 +0000
Subject: [PATCH 30/96] fix: keep the error of a file that cannot be opened

---
 libgst/prims.def | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 461bb03..452acc3 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -5623,7 +5623,8 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
 	  fileMode = _gst_to_cstring (oopVec[2]);
           fd = _gst_open_file ((char *) fileName, (char *) fileMode);
 	  memset (&st, 0, sizeof (st));
-          fstat (fd, &st);
+	  if (fd >= 0)
+            fstat (fd, &st);
 	  is_pipe =
 	    S_ISFIFO(st.st_mode) ? true :
 	    S_ISREG(st.st_mode) && st.st_size > 0 ? false : -1;
-- 
2.43.0


From 5c524f0822026aecb98c83fe6c50379af25dfd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:25 +0000
Subject: [PATCH 31/96] fix: report that a file could not be truncated

---
 libgst/prims.def | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 452acc3..419ae23 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -5879,10 +5879,9 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
       {
 	off_t pos;
 	pos = lseek (fd, 0, SEEK_CUR);
-	if (pos < 0)
+	if (pos < 0 || ftruncate (fd, pos) < 0)
 	  break;
 
-	ftruncate (fd, pos);
 	goto succeed;
       }
 
-- 
2.43.0


From e78dca21a73a6768bd71aa242b42c7ef97b293a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:25 +0000
Subject: [PATCH 32/96] fix: do not use the results of shutdown and fstat calls
 that failed

---
 libgst/prims.def             | 4 ++--
 libgst/sysdep/common/files.c | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 419ae23..13eb4af 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -5938,9 +5938,9 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
       }
 
     case PRIM_SHUTDOWN_WRITE:
-      shutdown (FD_TO_SOCKET (fd), 1);
+      rc = shutdown (FD_TO_SOCKET (fd), 1);
 #ifdef ENOTSOCK
-      if (errno == ENOTSOCK && isatty (fd))
+      if (rc == -1 && errno == ENOTSOCK && isatty (fd))
 	{
 	  char buf[1];
 	  write (fd, buf, 0);
diff --git a/libgst/sysdep/common/files.c b/libgst/sysdep/common/files.c
index 9ff49a4..0209b43 100644
--- a/libgst/sysdep/common/files.c
+++ b/libgst/sysdep/common/files.c
@@ -326,7 +326,9 @@ _gst_is_pipe (int fd)
 {
   struct stat st;
 
-  fstat (fd, &st);
+  if (fstat (fd, &st) == -1)
+    return (false);
+
 #ifdef S_IFREG
   return !(st.st_mode & S_IFREG);
 #else
-- 
2.43.0


From 44245e8c224ba9a0ec411ac66836ab0330788fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:52 +0000
Subject: [PATCH 33/96] fix: protect the receiver and the arguments of a
 message sent from C

Creating the call-in process can run the garbage collector before they are
pushed on its stack.
---
 libgst/interp.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libgst/interp.c b/libgst/interp.c
index 6afab88..39b3588 100644
--- a/libgst/interp.c
+++ b/libgst/interp.c
@@ -2298,8 +2298,17 @@ _gst_nvmsg_send (OOP receiver,
   OOP processOOP, currentProcessOOP;
   OOP result;
   gst_process process;
+  inc_ptr incArgs;
   int i;
 
+  /* The objects are not on any stack until the process exists.  */
+  incArgs = INC_SAVE_POINTER ();
+  INC_ADD_OOP (receiver);
+  if (sendSelector)
+    INC_ADD_OOP (sendSelector);
+  for (i = 0; i < sendArgs; i++)
+    INC_ADD_OOP (args[i]);
+
   processOOP = _gst_prepare_execution_environment ();
   INC_ADD_OOP (processOOP);
 
@@ -2324,6 +2333,9 @@ _gst_nvmsg_send (OOP receiver,
   else
     _gst_send_method (sendSelector);
 
+  INC_RESTORE_POINTER (incArgs);
+  INC_ADD_OOP (processOOP);
+
   process = (gst_process) OOP_TO_OBJ (currentProcessOOP);
 
   if (!IS_NIL (currentProcessOOP)
-- 
2.43.0


From 8f442634b16ba6a91671576a8cf973a87cf77108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:45 +0000
Subject: [PATCH 34/96] fix: protect the arguments of a callback while they are
 converted

---
 libgst/cint.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libgst/cint.c b/libgst/cint.c
index 29ce91f..8afcf44 100644
--- a/libgst/cint.c
+++ b/libgst/cint.c
@@ -1481,6 +1481,7 @@ closure_msg_send (ffi_cif* cif, void* result, void** args, void* userdata)
   OOP *argsOOP, *argTypes, resultOOP;
   cdata_type cType;
   cparam cp;
+  inc_ptr incPtr = INC_SAVE_POINTER ();
 
   desc = (gst_c_callable) OOP_TO_OBJ (callbackOOP);
   numArgs = NUM_INDEXABLE_FIELDS (desc->argTypesOOP);
@@ -1492,10 +1493,12 @@ closure_msg_send (ffi_cif* cif, void* result, void** args, void* userdata)
       desc = (gst_c_callable) OOP_TO_OBJ (callbackOOP);
       argTypes = OOP_TO_OBJ (desc->argTypesOOP)->data;
       argsOOP[i] = c_to_smalltalk (&cp, _gst_nil_oop, argTypes[i]);
+      INC_ADD_OOP (argsOOP[i]);
     }
 
   desc = (gst_c_callable) OOP_TO_OBJ (callbackOOP);
   resultOOP = _gst_nvmsg_send (desc->blockOOP, NULL, argsOOP, numArgs);
+  INC_RESTORE_POINTER (incPtr);
 
   desc = (gst_c_callable) OOP_TO_OBJ (callbackOOP);
   cType = IS_OOP (desc->returnTypeOOP) ? CDATA_COBJECT : TO_INT (desc->returnTypeOOP);
-- 
2.43.0


From 022831e2ae028e83793dd26fa1f0fd81899750fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:45 +0000
Subject: [PATCH 35/96] fix: protect the profile dictionaries while a method is
 recorded

---
 libgst/dict.c    | 1 +
 libgst/prims.def | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/libgst/dict.c b/libgst/dict.c
index 6321e3e..35fc129 100644
--- a/libgst/dict.c
+++ b/libgst/dict.c
@@ -2211,6 +2211,7 @@ _gst_record_profile (OOP oldMethod, OOP newMethod, int ipOffset)
   if UNCOMMON (IS_NIL (profile))
     {
       profile = _gst_identity_dictionary_new (_gst_identity_dictionary_class, 6);
+      INC_ADD_OOP (profile);
       _gst_identity_dictionary_at_put (_gst_raw_profile, oldMethod, 
                                        profile);
     }
diff --git a/libgst/prims.def b/libgst/prims.def
index 13eb4af..b861486 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -6273,10 +6273,15 @@ primitive VMpr_ObjectMemory_gcPrimitives :
 
 primitive VMpr_SystemDictionary_rawProfile [succeed]
 {
-  OOP oop1 = POP_OOP ();
+  OOP oop1;
+
+  /* This can run the garbage collector, do it before popping.  */
+  if (_gst_raw_profile)
+    _gst_record_profile (_gst_this_method, NULL, -1);
+
+  oop1 = POP_OOP ();
   if (_gst_raw_profile)
     {
-      _gst_record_profile (_gst_this_method, NULL, -1);
       SET_STACKTOP (_gst_raw_profile);
       _gst_unregister_oop (_gst_raw_profile);
     }
-- 
2.43.0


From d7e59a2e0d3160cdd125b94091c3945b3fa62a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:45 +0000
Subject: [PATCH 36/96] fix: make a new fixed object reachable before its
 memory is allocated

---
 libgst/prims.def | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index b861486..25ee5fe 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -4651,8 +4651,8 @@ primitive VMpr_Behavior_basicNewFixed [succeed,fail]
 	{
 	  OOP result;
 	  instantiate (oop1, &result);
-	  _gst_make_oop_fixed (result);
 	  SET_STACKTOP (result);
+	  _gst_make_oop_fixed (result);
 	  PRIM_SUCCEEDED;
 	}
     }
@@ -4678,8 +4678,8 @@ primitive VMpr_Behavior_basicNewFixedColon [succeed,fail]
 	    {
 	      OOP result;
 	      instantiate_with (oop1, arg2, &result);
-	      _gst_make_oop_fixed (result);
 	      SET_STACKTOP (result);
+	      _gst_make_oop_fixed (result);
 	      PRIM_SUCCEEDED;
 	    }
 	}
-- 
2.43.0


From eb8b62f0640e1344d4101fd913bb94c920a78a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:45 +0000
Subject: [PATCH 37/96] fix: keep the semaphore of a single-stepped process
 reachable

---
 libgst/prims.def | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 25ee5fe..8b8fc50 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2966,10 +2966,11 @@ primitive VMpr_Process_singleStepWaitingOn [succeed,fail]
 
   /* Put the current process to sleep, switch execution to the
      new one, and set up the VM to signal the semaphore as soon
-     as possible.  */
+     as possible.  The semaphore has been popped, store it first
+     so that it is not garbage collected.  */
+  single_step_semaphore = oop2;
   _gst_sync_wait (oop2);
   resume_process (oop1, true);
-  single_step_semaphore = oop2;
   PRIM_SUCCEEDED;
 }
 
-- 
2.43.0


From 924c189aa5c73245dd24802ca227e7cc42a849c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:22 +0000
Subject: [PATCH 38/96] fix: keep the file name of a failing snapshot reachable

The primitive pops it before saving, which collects garbage, and pushes it
back for the fallback code.
---
 libgst/prims.def | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libgst/prims.def b/libgst/prims.def
index 8b8fc50..55bb6b0 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -5475,6 +5475,11 @@ primitive VMpr_ObjectMemory_snapshot [succeed,fail]
   if (IS_CLASS (oop2, _gst_string_class))
     {
       mst_Boolean success;
+      inc_ptr incPtr = INC_SAVE_POINTER ();
+
+      /* The fallback code needs both, and saving collects garbage.  */
+      INC_ADD_OOP (oop1);
+      INC_ADD_OOP (oop2);
       fileName = _gst_to_cstring (oop2);
       errno = 0;
 
@@ -5492,6 +5497,7 @@ primitive VMpr_ObjectMemory_snapshot [succeed,fail]
         }
 
       xfree (fileName);
+      INC_RESTORE_POINTER (incPtr);
       if (pop_jmp_buf ())
         {
           stop_execution ();
-- 
2.43.0


From 1ccfab7baa1e9c5fd4c59f3cbcdf6acb7f51dc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:04 +0000
Subject: [PATCH 39/96] fix: keep the operands of a call-out reachable until it
 has succeeded

---
 libgst/prims.def | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libgst/prims.def b/libgst/prims.def
index 55bb6b0..22af485 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -6112,12 +6112,14 @@ primitive VMpr_CFuncDescriptor_asyncCall [succeed,fail]
   volatile gst_method_context context;
   OOP contextOOP, cFuncOOP, receiverOOP;
   interp_jmp_buf jb;
+  inc_ptr incPtr = INC_SAVE_POINTER ();
 
   _gst_primitives_executed++;
 
   if (numArgs == 1)
     {
       contextOOP = POP_OOP ();
+      INC_ADD_OOP (contextOOP);
       context = (gst_method_context) OOP_TO_OBJ (contextOOP);
       receiverOOP = context->receiver;
     }
@@ -6136,6 +6138,8 @@ primitive VMpr_CFuncDescriptor_asyncCall [succeed,fail]
   else
     resultOOP = NULL;
 
+  INC_RESTORE_POINTER (incPtr);
+
   if (pop_jmp_buf ())
     {
       stop_execution ();
@@ -6160,6 +6164,7 @@ primitive VMpr_CFuncDescriptor_call [succeed,fail]
   OOP receiverOOP, contextOOP, cFuncOOP, resultOOP;
   volatile OOP resultHolderOOP;
   interp_jmp_buf jb;
+  inc_ptr incPtr = INC_SAVE_POINTER ();
 
   _gst_primitives_executed++;
 
@@ -6183,6 +6188,11 @@ primitive VMpr_CFuncDescriptor_call [succeed,fail]
      active process can change.  */
   PUSH_OOP (resultHolderOOP);
 
+  /* And these are needed if the call fails.  */
+  INC_ADD_OOP (cFuncOOP);
+  if (numArgs == 2)
+    INC_ADD_OOP (contextOOP);
+
   push_jmp_buf (&jb, false, get_active_process ());
   if (setjmp (jb.jmpBuf) == 0)
     resultOOP = _gst_invoke_croutine (cFuncOOP, receiverOOP,
@@ -6190,6 +6200,8 @@ primitive VMpr_CFuncDescriptor_call [succeed,fail]
   else
     resultOOP = NULL;
 
+  INC_RESTORE_POINTER (incPtr);
+
   if (pop_jmp_buf ())
     {
       stop_execution ();
-- 
2.43.0


From cc76030f1c68815de26910f222e3f213ca6d34d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:43 +0000
Subject: [PATCH 40/96] fix: protect objects created by the parser until they
 are stored

---
 libgst/gst-parse.c | 20 ++++++++++++++++++--
 libgst/input.c     |  1 +
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/libgst/gst-parse.c b/libgst/gst-parse.c
index 5fd4f54..b65a3be 100644
--- a/libgst/gst-parse.c
+++ b/libgst/gst-parse.c
@@ -689,7 +689,14 @@ parse_scoped_definition (gst_parser *p, tree_node first_stmt)
 	  if (IS_NIL (classOOP))
 	    _gst_had_error = true;
 	  else
-	    return parse_class_definition (p, classOOP, false);  
+	    {
+	      mst_Boolean result;
+	      inc_ptr incPtr = INC_SAVE_POINTER ();
+	      INC_ADD_OOP (classOOP);
+	      result = parse_class_definition (p, classOOP, false);
+	      INC_RESTORE_POINTER (incPtr);
+	      return result;
+	    }
 	}
     }
 
@@ -966,7 +973,12 @@ parse_class_definition (gst_parser *p, OOP classOOP, mst_Boolean extend)
 	          result = execute_doit (p, NULL, stmt, the_class, false, true);
 
 	          if (result)
-		    DICTIONARY_AT_PUT (class_var_dict, name, result);
+		    {
+		      inc_ptr incPtr = INC_SAVE_POINTER ();
+		      INC_ADD_OOP (result);
+		      DICTIONARY_AT_PUT (class_var_dict, name, result);
+		      INC_RESTORE_POINTER (incPtr);
+		    }
 		  else
 		    _gst_had_error = true;
 		}
@@ -1472,6 +1484,7 @@ parse_attribute (gst_parser *p)
 {
   tree_node message, attr, constant;
   OOP attributeOOP, selectorOOP, argsOOP;
+  inc_ptr incPtr;
   char *sel;
   YYLTYPE location = *loc (p, 0);
 
@@ -1482,10 +1495,13 @@ parse_attribute (gst_parser *p)
       lex (p);
       selectorOOP = _gst_intern_string (sel);
       new_instance_with (_gst_array_class, 0, &argsOOP);
+      incPtr = INC_SAVE_POINTER ();
+      INC_ADD_OOP (argsOOP);
       MAKE_OOP_READONLY (selectorOOP, true);
       MAKE_OOP_READONLY (argsOOP, true);
       message = _gst_make_unary_expr (&location, NULL, sel);
       attributeOOP = _gst_message_new_args (selectorOOP, argsOOP);
+      INC_RESTORE_POINTER (incPtr);
     }
   else
     {
diff --git a/libgst/input.c b/libgst/input.c
index a2e98eb..4e61266 100644
--- a/libgst/input.c
+++ b/libgst/input.c
@@ -514,6 +514,7 @@ _gst_get_source_string (off_t startPos, off_t endPos)
           fileSegment = (gst_file_segment) new_instance (_gst_file_segment_class,
                                                          &result);
 
+          INC_ADD_OOP (result);
           fileSegment->fileOOP = fileOOP;
           fileSegment->startPos = from_c_int_64 (startPos);
           fileSegment->length = from_c_int_64 (endPos - startPos);
-- 
2.43.0


From 5e0e4f4d713116bcd2a7093a291f115e0f29b3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:47 +0000
Subject: [PATCH 41/96] fix: keep the process being single-stepped reachable

---
 libgst/prims.def | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libgst/prims.def b/libgst/prims.def
index 22af485..ee9fe07 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2952,6 +2952,7 @@ primitive VMpr_Process_singleStepWaitingOn [succeed,fail]
 {
   OOP oop1;
   OOP oop2;
+  inc_ptr incPtr;
 
   _gst_primitives_executed++;
 
@@ -2969,8 +2970,13 @@ primitive VMpr_Process_singleStepWaitingOn [succeed,fail]
      as possible.  The semaphore has been popped, store it first
      so that it is not garbage collected.  */
   single_step_semaphore = oop2;
+
+  /* Waiting overwrites the stack top.  */
+  incPtr = INC_SAVE_POINTER ();
+  INC_ADD_OOP (oop1);
   _gst_sync_wait (oop2);
   resume_process (oop1, true);
+  INC_RESTORE_POINTER (incPtr);
   PRIM_SUCCEEDED;
 }
 
-- 
2.43.0


From 050e47c69e83172fc1d9eb5c08557f4c40687476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:10 +0000
Subject: [PATCH 42/96] fix: close the scope of temporary roots when a
 formatted send is refused

---
 libgst/callin.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libgst/callin.c b/libgst/callin.c
index 344be33..eda0cee 100644
--- a/libgst/callin.c
+++ b/libgst/callin.c
@@ -205,7 +205,10 @@ _gst_va_msg_sendf (PTR resultPtr,
     selector = _gst_intern_string (selectorBuf);
 
   if (numArgs != 1 + _gst_selector_num_args (selector))
-    return;
+    {
+      INC_RESTORE_POINTER (incPtr);
+      return;
+    }
 
   args = (OOP *) alloca (sizeof (OOP) * numArgs);
   for (i = -1, fp = &fmt[2]; *fp; fp++)
-- 
2.43.0


From 62355ef6455f7a6c5877f1ace11e45283127fc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:10 +0000
Subject: [PATCH 43/96] fix: close the scope of temporary roots when a class
 attribute is skipped

---
 libgst/gst-parse.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libgst/gst-parse.c b/libgst/gst-parse.c
index b65a3be..ddaa9b1 100644
--- a/libgst/gst-parse.c
+++ b/libgst/gst-parse.c
@@ -792,11 +792,10 @@ make_attribute (gst_parser *p, OOP classOOP, tree_node attribute_keywords)
   int i, numArgs;
   inc_ptr incPtr;
 
-  incPtr = INC_SAVE_POINTER ();
-  
   if (_gst_had_error)
     return _gst_nil_oop;
 
+  incPtr = INC_SAVE_POINTER ();
   selectorOOP = _gst_compute_keyword_selector (attribute_keywords);
   numArgs = _gst_list_length (attribute_keywords);
   argsArray = instantiate_with (_gst_array_class, numArgs, &argsArrayOOP);
-- 
2.43.0


From a57a67d5309f90ac73ef662fedf54ac75502951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 44/96] fix: test the method argument of perform: before using
 it

---
 libgst/prims.def | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index ee9fe07..e1d598d 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2788,7 +2788,7 @@ primitive VMpr_Object_perform [fail,reload_ip]
       PRIM_SUCCEEDED_RELOAD_IP;
     }
 
-  if COMMON (is_a_kind_of (OOP_CLASS (oop1), _gst_compiled_method_class))
+  if COMMON (is_a_kind_of (OOP_INT_CLASS (oop1), _gst_compiled_method_class))
     {
       gst_compiled_method method;
       method_header header;
@@ -2819,12 +2819,14 @@ primitive VMpr_Object_performWithArguments [fail,reload_ip]
 
   oop2 = POP_OOP ();
   oop1 = POP_OOP ();
-  numArgs = NUM_INDEXABLE_FIELDS (oop2);
   if UNCOMMON (!IS_CLASS (oop2, _gst_array_class))
-    /* fall through to UNPOP and PRIM_FAILED */
-    ;
+    {
+      UNPOP (2);
+      PRIM_FAILED;
+    }
 
-  else if COMMON (IS_CLASS (oop1, _gst_symbol_class)
+  numArgs = NUM_INDEXABLE_FIELDS (oop2);
+  if COMMON (IS_CLASS (oop1, _gst_symbol_class)
       && check_send_correctness (STACKTOP (), oop1, numArgs))
     {
 
@@ -2836,7 +2838,7 @@ primitive VMpr_Object_performWithArguments [fail,reload_ip]
       PRIM_SUCCEEDED_RELOAD_IP;
     }
 
-  else if COMMON (is_a_kind_of (OOP_CLASS (oop1), _gst_compiled_method_class))
+  else if COMMON (is_a_kind_of (OOP_INT_CLASS (oop1), _gst_compiled_method_class))
     {
       gst_compiled_method method;
       method_header header;
-- 
2.43.0


From af6cf66e75c1fe4a1cc6e9a303c7eba0548ed4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 45/96] fix: test that an argument is a Semaphore before
 signalling or waiting on it

---
 libgst/prims.def | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index e1d598d..3c1caea 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2913,13 +2913,19 @@ primitive VMpr_Semaphore_wait [succeed,check_interrupt]
 }
 
 /* Semaphore waitAfterSignalling: aSemaphore */
-primitive VMpr_Semaphore_waitAfterSignalling [succeed,check_interrupt]
+primitive VMpr_Semaphore_waitAfterSignalling [succeed,fail,check_interrupt]
 {
   OOP oop1, oop2;
   _gst_primitives_executed++;
 
   oop2 = POP_OOP ();
   oop1 = STACKTOP ();
+  if (!is_a_kind_of (OOP_INT_CLASS (oop2), _gst_semaphore_class))
+    {
+      UNPOP (1);
+      PRIM_FAILED;
+    }
+
   _gst_sync_signal (oop2, true);
   _gst_sync_wait (oop1);
   PRIM_SUCCEEDED;
@@ -2961,7 +2967,8 @@ primitive VMpr_Process_singleStepWaitingOn [succeed,fail]
   oop2 = POP_OOP ();
   oop1 = STACKTOP ();
 
-  if (is_process_ready (oop1) || is_process_terminating (oop1))
+  if (!is_a_kind_of (OOP_INT_CLASS (oop2), _gst_semaphore_class)
+      || is_process_ready (oop1) || is_process_terminating (oop1))
     {
       UNPOP (1);
       PRIM_FAILED;
@@ -3189,7 +3196,8 @@ primitive VMpr_Processor_signalAt :
 
   oop2 = POP_OOP ();
   oop1 = POP_OOP ();
-  if (is_c_int_64 (oop2))
+  if (is_c_int_64 (oop2)
+      && is_a_kind_of (OOP_INT_CLASS (oop1), _gst_semaphore_class))
     {
       int64_t arg2 = to_c_int_64 (oop2);
       uint64_t ns = _gst_get_ns_time ();
-- 
2.43.0


From a574cb1978feaeffb3cd1fcfcb1446e990e0bb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 46/96] fix: test the type and address arguments of C data
 primitives

---
 libgst/prims.def | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 3c1caea..cddf6b9 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -3845,9 +3845,9 @@ primitive VMpr_Memory_atPut [succeed,fail]
 	case CDATA_CHAR:		/* char */
 	case CDATA_UCHAR:		/* unsigned char */
 	  /* may want to use Character instead? */
-	  if (IS_CLASS (oop3, _gst_char_class)
-	      || (IS_CLASS (oop3, _gst_unicode_character_class)
-		  && CHAR_OOP_VALUE (oop3) <= 127))
+	  if (IS_CLASS (oop4, _gst_char_class)
+	      || (IS_CLASS (oop4, _gst_unicode_character_class)
+		  && CHAR_OOP_VALUE (oop4) <= 127))
 	    {
 	      *(char *) arg2 = CHAR_OOP_VALUE (oop4);
 	      PRIM_SUCCEEDED;
@@ -4257,7 +4257,7 @@ primitive VMpr_CObject_allocType [succeed,fail]
   oop2 = STACK_AT (1);
   oop3 = STACK_AT (2);
   if (IS_INT (oop2)
-      && (IS_NIL (oop1) || is_a_kind_of (OOP_CLASS (oop1), _gst_c_type_class))
+      && (IS_NIL (oop1) || is_a_kind_of (OOP_INT_CLASS (oop1), _gst_c_type_class))
       && COMMON (RECEIVER_IS_A_KIND_OF (oop3, _gst_c_object_class)))
     {
       intptr_t arg2 = TO_INT (oop2);
@@ -4753,7 +4753,7 @@ primitive VMpr_CObject_at :
   oop1 = STACKTOP ();
   if (IS_INT (oop2)
       && ((IS_INT (oop3) && id == prim_id (VMpr_CObject_at))
-	  || is_a_kind_of (OOP_CLASS (oop3), _gst_c_type_class)))
+	  || is_a_kind_of (OOP_INT_CLASS (oop3), _gst_c_type_class)))
     {
       char *addr;
       intptr_t arg2;
@@ -5018,7 +5018,7 @@ primitive VMpr_CObject_atPut [succeed,fail]
 	        *strAddr = (char *) 0;
 	        PRIM_SUCCEEDED;
 	      }
-	    else if (is_a_kind_of (OOP_CLASS (oop3), _gst_string_class))
+	    else if (is_a_kind_of (OOP_INT_CLASS (oop3), _gst_string_class))
 	      {
 		*strAddr = (char *) _gst_to_cstring (oop3);
 		PRIM_SUCCEEDED;
@@ -5158,7 +5158,8 @@ primitive VMpr_ByteArray_fromCData_size [succeed,fail]
   oop3 = STACK_AT (0);
   oop2 = STACK_AT (1);
   oop1 = STACK_AT (2);
-  if (IS_INT (oop3))
+  if (IS_INT (oop3)
+      && is_a_kind_of (OOP_INT_CLASS (oop2), _gst_c_object_class))
     {
       intptr_t arg3 = TO_INT (oop3);
       OOP byteArrayOOP;
@@ -5188,7 +5189,8 @@ primitive VMpr_String_fromCData_size [succeed,fail]
   oop3 = STACK_AT (0);
   oop2 = STACK_AT (1);
   oop1 = STACK_AT (2);
-  if (IS_INT (oop3))
+  if (IS_INT (oop3)
+      && is_a_kind_of (OOP_INT_CLASS (oop2), _gst_c_object_class))
     {
       intptr_t arg3 = TO_INT (oop3);
       OOP stringOOP;
@@ -5207,7 +5209,7 @@ primitive VMpr_String_fromCData_size [succeed,fail]
 }
 
 /* String class fromCdata: aCObject */
-primitive VMpr_String_fromCData [succeed]
+primitive VMpr_String_fromCData [succeed,fail]
 {
   OOP oop1;
   OOP oop2;
@@ -5220,6 +5222,9 @@ primitive VMpr_String_fromCData [succeed]
   /* See above.  */
   oop2 = STACK_AT (0);
   oop1 = STACK_AT (1);
+  if (!is_a_kind_of (OOP_INT_CLASS (oop2), _gst_c_object_class))
+    PRIM_FAILED;
+
   s = cobject_value (oop2);
   len = s ? strlen (s) : 0;
   string = (gst_string)
@@ -5243,7 +5248,7 @@ primitive VMpr_String_ByteArray_asCData :
 
   oop2 = STACK_AT (0);
   oop1 = STACK_AT (1);
-  if (is_a_kind_of (OOP_CLASS (oop2), _gst_c_type_class))
+  if (is_a_kind_of (OOP_INT_CLASS (oop2), _gst_c_type_class))
     {
       int size = NUM_INDEXABLE_FIELDS (oop1);
       int alloc_size = (id == prim_id (VMpr_String_asCData)) ? size + 1 : size;
-- 
2.43.0


From 3a92fc176c0d4c0816e0806df2eb213034509766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 47/96] fix: test the arguments of the code creation primitives

---
 libgst/prims.def | 47 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index cddf6b9..728edba 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2206,17 +2206,26 @@ primitive VMpr_CompiledCode_verificationResult [succeed]
 }
 
 /* CompiledBlock numArgs:numTemps:bytecodes:depth:literals: */
-primitive VMpr_CompiledBlock_create [succeed]
+primitive VMpr_CompiledBlock_create [succeed,fail]
 {
-  OOP *_gst_literals = OOP_TO_OBJ (STACK_AT (0))->data;
-  int depth = TO_INT (STACK_AT (1));
+  OOP *_gst_literals;
+  OOP literals = STACK_AT (0);
+  OOP depthOOP = STACK_AT (1);
   OOP bytecodesOOP = STACK_AT (2);
-  int blockTemps = TO_INT (STACK_AT (3));
-  int blockArgs = TO_INT (STACK_AT (4));
-  bc_vector bytecodes = _gst_extract_bytecodes (bytecodesOOP);
+  OOP tempsOOP = STACK_AT (3);
+  OOP argsOOP = STACK_AT (4);
+  bc_vector bytecodes;
+  OOP block;
+
+  if (!(IS_NIL (literals) || IS_CLASS (literals, _gst_array_class))
+      || !is_a_kind_of (OOP_INT_CLASS (bytecodesOOP), _gst_byte_array_class)
+      || !IS_INT (depthOOP) || !IS_INT (tempsOOP) || !IS_INT (argsOOP))
+    PRIM_FAILED;
 
-  OOP block =
-    _gst_block_new (blockArgs, blockTemps, bytecodes, depth, _gst_literals);
+  _gst_literals = OOP_TO_OBJ (literals)->data;
+  bytecodes = _gst_extract_bytecodes (bytecodesOOP);
+  block = _gst_block_new (TO_INT (argsOOP), TO_INT (tempsOOP), bytecodes,
+			  TO_INT (depthOOP), _gst_literals);
 
   _gst_free_bytecodes (bytecodes);
   POP_N_OOPS (5);
@@ -2230,18 +2239,26 @@ primitive VMpr_CompiledBlock_create [succeed]
 /* CompiledMethod literals:numArgs:numTemps:attributes:bytecodes:depth: */
 primitive VMpr_CompiledMethod_create [succeed,fail]
 {
-  int depth = TO_INT (STACK_AT (0));
+  OOP depthOOP = STACK_AT (0);
   OOP bytecodesOOP = STACK_AT (1);
   OOP attributesOOP = STACK_AT (2);
-  int methodTemps = TO_INT (STACK_AT (3));
-  int methodArgs = TO_INT (STACK_AT (4));
+  OOP tempsOOP = STACK_AT (3);
+  OOP argsOOP = STACK_AT (4);
   OOP literals = STACK_AT (5);
-  bc_vector bytecodes = _gst_extract_bytecodes (bytecodesOOP);
+  bc_vector bytecodes;
   OOP method;
 
-  method = _gst_make_new_method (methodArgs, methodTemps, depth, attributesOOP,
-			         literals, bytecodes, _gst_nil_oop,
-				 _gst_nil_oop, _gst_nil_oop, -1, -1);
+  if (!(IS_NIL (literals) || IS_CLASS (literals, _gst_array_class))
+      || !IS_CLASS (attributesOOP, _gst_array_class)
+      || !is_a_kind_of (OOP_INT_CLASS (bytecodesOOP), _gst_byte_array_class)
+      || !IS_INT (depthOOP) || !IS_INT (tempsOOP) || !IS_INT (argsOOP))
+    PRIM_FAILED;
+
+  bytecodes = _gst_extract_bytecodes (bytecodesOOP);
+  method = _gst_make_new_method (TO_INT (argsOOP), TO_INT (tempsOOP),
+				 TO_INT (depthOOP), attributesOOP, literals,
+				 bytecodes, _gst_nil_oop, _gst_nil_oop,
+				 _gst_nil_oop, -1, -1);
   if (IS_NIL (method))
     PRIM_FAILED;
 
-- 
2.43.0


From abf3be52960d561e69617769f62055897e46b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 48/96] fix: test the arguments of file and socket operations

---
 libgst/prims.def | 108 ++++++++++++++++++++++++++++-------------------
 1 file changed, 65 insertions(+), 43 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 728edba..5f5932f 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -5607,7 +5607,7 @@ primitive VMpr_Stream_fileInLine [succeed,fail]
     {
       mst_Boolean interrupted;
       intptr_t arg1 = TO_INT (oop1);
-      intptr_t arg4 = TO_INT (oop4);
+      intptr_t arg4 = IS_INT (oop4) ? TO_INT (oop4) : 0;
 
       _gst_push_stream_oop (streamOOP);
       _gst_set_stream_info (arg1, oop2, oop3, arg4);
@@ -5631,13 +5631,16 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
   gst_file_stream fileStream;
   int fd, rc;
   OOP oop1;
-  OOP *oopVec = alloca (numArgs * sizeof (OOP));
+  OOP *oopVec = alloca ((numArgs + 5) * sizeof (OOP));
   int i;
   intptr_t arg1;
   OOP resultOOP;
 
   _gst_primitives_executed++;
 
+  /* The arguments that an operation needs might be missing.  */
+  for (i = numArgs + 5; --i >= numArgs;)
+    oopVec[i] = _gst_nil_oop;
   for (i = numArgs; --i >= 0;)
     oopVec[i] = POP_OOP ();
 
@@ -5659,11 +5662,12 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
 
       /* open: fileName[1] mode: mode[2] or popen: command[1] dir:
          direction[2] */
-      fileName = _gst_to_cstring (oopVec[1]);
-      if (!is_a_kind_of (OOP_CLASS (oopVec[1]), _gst_string_class))
-        fd = -1;
+      if (!is_a_kind_of (OOP_INT_CLASS (oopVec[1]), _gst_string_class)
+	  || !is_a_kind_of (OOP_INT_CLASS (oopVec[2]), _gst_string_class))
+	goto fail;
 
-      else if (arg1 == PRIM_OPEN_FILE)
+      fileName = _gst_to_cstring (oopVec[1]);
+      if (arg1 == PRIM_OPEN_FILE)
         {
 	  fileMode = _gst_to_cstring (oopVec[2]);
           fd = _gst_open_file ((char *) fileName, (char *) fileMode);
@@ -5701,6 +5705,9 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
     }
 
   case PRIM_MK_TEMP:
+    if (!is_a_kind_of (OOP_INT_CLASS (oopVec[1]), _gst_string_class))
+      goto fail;
+
     fileName = _gst_to_cstring (oopVec[1]);
     asprintf (&fileName2, "%sXXXXXX", fileName);
     fd = mkstemp ((char *) fileName2);
@@ -5788,7 +5795,8 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
     case PRIM_PUT_CHARS:
       if (!IS_INT(oopVec[1])
           && (OOP_INSTANCE_SPEC (oopVec[1]) & ISP_INDEXEDVARS) != GST_ISP_FIXED
-          && _gst_log2_sizes[OOP_INSTANCE_SPEC (oopVec[1]) & ISP_SHAPE] == 0)
+          && _gst_log2_sizes[OOP_INSTANCE_SPEC (oopVec[1]) & ISP_SHAPE] == 0
+	  && IS_INT (oopVec[2]) && IS_INT (oopVec[3]))
 	{
 	  char *data = STRING_OOP_CHARS (oopVec[1]);
 	  intptr_t from = TO_INT (oopVec[2]);
@@ -5810,7 +5818,8 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
     case PRIM_GET_CHARS:		/* only works for strings */
       if (!IS_INT(oopVec[1])
           && (OOP_INSTANCE_SPEC (oopVec[1]) & ISP_INDEXEDVARS) != GST_ISP_FIXED
-          && _gst_log2_sizes[OOP_INSTANCE_SPEC (oopVec[1]) & ISP_SHAPE] == 0)
+          && _gst_log2_sizes[OOP_INSTANCE_SPEC (oopVec[1]) & ISP_SHAPE] == 0
+	  && IS_INT (oopVec[2]) && IS_INT (oopVec[3]))
 	{
 	  char *data = STRING_OOP_CHARS (oopVec[1]);
 	  intptr_t from = TO_INT (oopVec[2]);
@@ -5838,6 +5847,7 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
       if (!IS_INT(oopVec[1])
           && (OOP_INSTANCE_SPEC (oopVec[1]) & ISP_INDEXEDVARS) != GST_ISP_FIXED
           && _gst_log2_sizes[OOP_INSTANCE_SPEC (oopVec[1]) & ISP_SHAPE] == 0
+	  && IS_INT (oopVec[2]) && IS_INT (oopVec[3])
 	  && IS_OFF_T (oopVec[4]))
 	{
 	  char *data = STRING_OOP_CHARS (oopVec[1]);
@@ -5881,6 +5891,7 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
       if (!IS_INT(oopVec[1])
           && (OOP_INSTANCE_SPEC (oopVec[1]) & ISP_INDEXEDVARS) != GST_ISP_FIXED
           && _gst_log2_sizes[OOP_INSTANCE_SPEC (oopVec[1]) & ISP_SHAPE] == 0
+	  && IS_INT (oopVec[2]) && IS_INT (oopVec[3])
 	  && IS_OFF_T (oopVec[4]))
 	{
 	  char *data = STRING_OOP_CHARS (oopVec[1]);
@@ -5938,27 +5949,30 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
 	goto succeed;
 
     case PRIM_SYNC_POLL:
-      {
-	int result;
+      if (IS_INT (oopVec[1]))
+	{
+	  int result;
 
-	result = _gst_sync_file_polling (fd, TO_INT (oopVec[1]));
-	if (result >= 0)
-	  {
-	    resultOOP = FROM_INT (result);
-	    goto succeed;
-	  }
-      }
+	  result = _gst_sync_file_polling (fd, TO_INT (oopVec[1]));
+	  if (result >= 0)
+	    {
+	      resultOOP = FROM_INT (result);
+	      goto succeed;
+	    }
+	}
       break;
 
     case PRIM_ASYNC_POLL:
-      {
-	int result;
+      if (IS_INT (oopVec[1])
+	  && is_a_kind_of (OOP_INT_CLASS (oopVec[2]), _gst_semaphore_class))
+	{
+	  int result;
 
-	result =
-	  _gst_async_file_polling (fd, TO_INT (oopVec[1]), oopVec[2]);
-	if (result >= 0)
-	  goto succeed;
-      }
+	  result =
+	    _gst_async_file_polling (fd, TO_INT (oopVec[1]), oopVec[2]);
+	  if (result >= 0)
+	    goto succeed;
+	}
       break;
 
     case PRIM_IS_PIPE:
@@ -6014,13 +6028,16 @@ primitive VMpr_FileDescriptor_socketOp [succeed,fail]
   gst_file_stream fileStream;
   int fd, rc;
   OOP oop1, resultOOP;
-  OOP *oopVec = alloca (numArgs * sizeof (OOP));
+  OOP *oopVec = alloca ((numArgs + 5) * sizeof (OOP));
   int i;
   intptr_t arg1;
 
   _gst_primitives_executed++;
 
 #ifdef HAVE_SOCKETS
+  /* The arguments that an operation needs might be missing.  */
+  for (i = numArgs + 5; --i >= numArgs;)
+    oopVec[i] = _gst_nil_oop;
   for (i = numArgs; --i >= 0;)
     oopVec[i] = POP_OOP ();
 
@@ -6052,7 +6069,8 @@ primitive VMpr_FileDescriptor_socketOp [succeed,fail]
     case PRIM_PUT_CHARS:
       if (!IS_INT(oopVec[1])
           && (OOP_INSTANCE_SPEC (oopVec[1]) & ISP_INDEXEDVARS) != GST_ISP_FIXED
-          && _gst_log2_sizes[OOP_INSTANCE_SPEC (oopVec[1]) & ISP_SHAPE] == 0)
+          && _gst_log2_sizes[OOP_INSTANCE_SPEC (oopVec[1]) & ISP_SHAPE] == 0
+	  && IS_INT (oopVec[2]) && IS_INT (oopVec[3]))
 	{
 	  char *data = STRING_OOP_CHARS (oopVec[1]);
 	  intptr_t from = TO_INT (oopVec[2]);
@@ -6075,7 +6093,8 @@ primitive VMpr_FileDescriptor_socketOp [succeed,fail]
     case PRIM_GET_CHARS:		/* only works for strings */
       if (!IS_INT(oopVec[1])
           && (OOP_INSTANCE_SPEC (oopVec[1]) & ISP_INDEXEDVARS) != GST_ISP_FIXED
-          && _gst_log2_sizes[OOP_INSTANCE_SPEC (oopVec[1]) & ISP_SHAPE] == 0)
+          && _gst_log2_sizes[OOP_INSTANCE_SPEC (oopVec[1]) & ISP_SHAPE] == 0
+	  && IS_INT (oopVec[2]) && IS_INT (oopVec[3]))
 	{
 	  char *data = STRING_OOP_CHARS (oopVec[1]);
 	  intptr_t from = TO_INT (oopVec[2]);
@@ -6100,27 +6119,30 @@ primitive VMpr_FileDescriptor_socketOp [succeed,fail]
       break;
 
     case PRIM_SYNC_POLL:
-      {
-	int result;
+      if (IS_INT (oopVec[1]))
+	{
+	  int result;
 
-	result = _gst_sync_file_polling (fd, TO_INT (oopVec[1]));
-	if (result >= 0)
-	  {
-	    resultOOP = FROM_INT (result);
-	    goto succeed;
-	  }
-      }
+	  result = _gst_sync_file_polling (fd, TO_INT (oopVec[1]));
+	  if (result >= 0)
+	    {
+	      resultOOP = FROM_INT (result);
+	      goto succeed;
+	    }
+	}
       break;
 
     case PRIM_ASYNC_POLL:
-      {
-	int result;
+      if (IS_INT (oopVec[1])
+	  && is_a_kind_of (OOP_INT_CLASS (oopVec[2]), _gst_semaphore_class))
+	{
+	  int result;
 
-	result =
-	  _gst_async_file_polling (fd, TO_INT (oopVec[1]), oopVec[2]);
-	if (result >= 0)
-	  goto succeed;
-      }
+	  result =
+	    _gst_async_file_polling (fd, TO_INT (oopVec[1]), oopVec[2]);
+	  if (result >= 0)
+	    goto succeed;
+	}
       break;
 
     case PRIM_IS_PIPE:
-- 
2.43.0


From 8c4eaf313f325392791f7158554be02948dd0d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 49/96] fix: test the context and result holder of call-outs

---
 libgst/prims.def | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 5f5932f..0931fa7 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -6172,10 +6172,16 @@ primitive VMpr_CFuncDescriptor_asyncCall [succeed,fail]
   volatile gst_method_context context;
   OOP contextOOP, cFuncOOP, receiverOOP;
   interp_jmp_buf jb;
-  inc_ptr incPtr = INC_SAVE_POINTER ();
+  inc_ptr incPtr;
 
   _gst_primitives_executed++;
 
+  if (numArgs == 1
+      && !IS_CLASS (STACKTOP (), _gst_method_context_class)
+      && !IS_CLASS (STACKTOP (), _gst_block_context_class))
+    PRIM_FAILED;
+
+  incPtr = INC_SAVE_POINTER ();
   if (numArgs == 1)
     {
       contextOOP = POP_OOP ();
@@ -6224,10 +6230,22 @@ primitive VMpr_CFuncDescriptor_call [succeed,fail]
   OOP receiverOOP, contextOOP, cFuncOOP, resultOOP;
   volatile OOP resultHolderOOP;
   interp_jmp_buf jb;
-  inc_ptr incPtr = INC_SAVE_POINTER ();
+  inc_ptr incPtr;
 
   _gst_primitives_executed++;
 
+  resultHolderOOP = STACKTOP ();
+  if (IS_INT (resultHolderOOP)
+      || (!IS_NIL (resultHolderOOP)
+	  && NUM_OOPS (OOP_TO_OBJ (resultHolderOOP)) == 0))
+    PRIM_FAILED;
+
+  if (numArgs == 2
+      && !IS_CLASS (STACK_AT (1), _gst_method_context_class)
+      && !IS_CLASS (STACK_AT (1), _gst_block_context_class))
+    PRIM_FAILED;
+
+  incPtr = INC_SAVE_POINTER ();
   resultHolderOOP = POP_OOP ();
   if (numArgs == 2)
     {
-- 
2.43.0


From 0e19ca29027861b4b1bb8a7e13241dbe9bc9e7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 50/96] fix: test for small integers in class, namespace and
 ephemeron primitives

---
 kernel/Object.st |  3 ++-
 libgst/prims.def | 14 ++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/kernel/Object.st b/kernel/Object.st
index 8339ae9..27a9e88 100644
--- a/kernel/Object.st
+++ b/kernel/Object.st
@@ -781,7 +781,8 @@ All classes in the system are subclasses of me.'>
 
 	<category: 'built ins'>
 	<primitive: VMpr_Object_changeClassTo>
-	
+	^SystemExceptions.InvalidArgument signalOn: aBehavior
+	    reason: 'cannot change the class of the receiver'
     ]
 
     checkIndexableBounds: index ifAbsent: aBlock [
diff --git a/libgst/prims.def b/libgst/prims.def
index 0931fa7..b860e7c 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2543,7 +2543,7 @@ primitive VMpr_Object_nextInstance [succeed,fail]
   _gst_primitives_executed++;
 
   oop1 = STACKTOP ();
-  if (OOP_CLASS (oop1) == _gst_char_class)
+  if (IS_OOP (oop1) && OOP_CLASS (oop1) == _gst_char_class)
     {
       /* Characters are one after another - at the end there is
          _gst_nil_oop */
@@ -3110,6 +3110,12 @@ primitive VMpr_Object_changeClassTo [succeed,fail]
 
   oop1 = POP_OOP ();
   oop2 = STACKTOP ();
+  if (IS_INT (oop1) || IS_INT (oop2))
+    {
+      UNPOP (1);
+      PRIM_FAILED;
+    }
+
   obj1 = OOP_TO_OBJ (oop1);
   obj2 = OOP_TO_OBJ (oop2);
   if (NUM_WORDS (obj1) > 0
@@ -6310,7 +6316,7 @@ primitive VMpr_CFuncDescriptor_call [succeed,fail]
 primitive VMpr_Object_makeEphemeron [succeed,fail]
 {
   _gst_primitives_executed++;
-  if (NUM_OOPS (OOP_TO_OBJ (STACKTOP ())) == 0)
+  if (IS_INT (STACKTOP ()) || NUM_OOPS (OOP_TO_OBJ (STACKTOP ())) == 0)
     PRIM_FAILED;
 
   MAKE_OOP_EPHEMERON (STACKTOP ());
@@ -6324,9 +6330,9 @@ primitive VMpr_Namespace_setCurrent [fail]
 
   _gst_primitives_executed++;
   oop1 = STACKTOP ();
-  if (is_a_kind_of (OOP_CLASS (oop1), _gst_dictionary_class))
+  if (is_a_kind_of (OOP_INT_CLASS (oop1), _gst_dictionary_class))
     _gst_current_namespace = oop1;
-  else if (is_a_kind_of (OOP_CLASS (oop1), _gst_class_class))
+  else if (is_a_kind_of (OOP_INT_CLASS (oop1), _gst_class_class))
     _gst_current_namespace = _gst_class_variable_dictionary (oop1);
 
   /* Always fail */
-- 
2.43.0


From 3237a0ef7fcf765600506c4b8470c60357ee307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:18 +0000
Subject: [PATCH 51/96] fix: index and size checks of at: and at:put: must not
 wrap around

The first index of an empty object passed the check, because the unsigned
difference of the maximum and the base wrapped around; so did huge indices
that are a multiple of the word size modulo the size of the element.
---
 libgst/dict.inl | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index 528f870..17d02f3 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -992,14 +992,12 @@ index_oop_spec (OOP oop,
       maxByte -= (oop->flags & EMPTY_BYTES);				\
 									\
     base = (instanceSpec >> ISP_NUMFIXEDFIELDS) * sizeof (PTR);		\
-    index = base + index * sizeof(type);				\
 									\
     /* Check that we're on bounds.  */					\
-    base += sizeof(type);						\
-    if UNCOMMON (index - base > maxByte - base)				\
+    if UNCOMMON (index > (maxByte - base) / sizeof (type))		\
       return (NULL);							\
 									\
-    index -= sizeof(type);						\
+    index = base + (index - 1) * sizeof(type);				\
 									\
     /* Use a cast if unaligned accesses are supported, else memcpy.  */	\
     src = ((char *) object->data) + index;				\
@@ -1085,12 +1083,10 @@ index_oop_spec (OOP oop,
       case GST_ISP_POINTER:
         maxIndex = NUM_WORDS (object);
         base = instanceSpec >> ISP_NUMFIXEDFIELDS;
-        index += base;
-        base++;
-        if UNCOMMON (index - base > maxIndex - base)
+        if UNCOMMON (index > maxIndex - base)
 	  return (NULL);
 
-        return (object->data[index - 1]);
+        return (object->data[base + index - 1]);
     }
 #undef DO_INDEX_OOP
 
@@ -1127,15 +1123,13 @@ index_oop_put_spec (OOP oop,
         if (sizeof (type) <= sizeof (PTR))				\
           maxByte -= (oop->flags & EMPTY_BYTES);			\
 									\
-          base = (instanceSpec >> ISP_NUMFIXEDFIELDS) * sizeof (PTR);	\
-          index = base + index * sizeof(type);				\
+        base = (instanceSpec >> ISP_NUMFIXEDFIELDS) * sizeof (PTR);	\
 									\
         /* Check that we're on bounds.  */				\
-        base += sizeof(type);						\
-        if UNCOMMON (index - base > maxByte - base)			\
+        if UNCOMMON (index > (maxByte - base) / sizeof (type))		\
           return (false);						\
 									\
-        index -= sizeof(type);						\
+        index = base + (index - 1) * sizeof(type);			\
 									\
         /* Use a cast if unaligned accesses are ok, else memcpy.  */	\
         if (sizeof (type) <= sizeof (PTR))				\
@@ -1253,12 +1247,10 @@ index_oop_put_spec (OOP oop,
       case GST_ISP_POINTER:
         maxIndex = NUM_WORDS (object);
         base = instanceSpec >> ISP_NUMFIXEDFIELDS;
-        index += base;
-        base++;
-        if UNCOMMON (index - base > maxIndex - base)
+        if UNCOMMON (index > maxIndex - base)
 	  return (false);
 
-        object->data[index - 1] = value;
+        object->data[base + index - 1] = value;
         return (true);
     }
 #undef DO_INDEX_OOP_PUT
-- 
2.43.0


From 29353763be058f412c96ef70585401db2f81f32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:18 +0000
Subject: [PATCH 52/96] fix: read elements of #short classes as signed values

---
 libgst/dict.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index 17d02f3..e92a9b6 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -1027,7 +1027,7 @@ index_oop_spec (OOP oop,
       }
 
       case GST_ISP_SHORT: {
-        uint16_t i;
+        int16_t i;
         DO_INDEX_OOP (int16_t, i);
         return FROM_INT (i);
       }
-- 
2.43.0


From 71f111dab7cebff52752ab02d4f78ab500f17411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:49 +0000
Subject: [PATCH 53/96] fix: sizes of objects do not fit in an int

---
 libgst/dict.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index e92a9b6..c15fb80 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -91,7 +91,7 @@ static inline OOP inst_var_at (OOP oop,
 			       int index);
 
 /* Returns the number of instance variables (both fixed and indexed) in OOP.  */
-static inline int oop_num_fields (OOP oop);
+static inline intptr_t oop_num_fields (OOP oop);
 
 /* Fill OOPCOUNT pointers to OOPs, starting at OOPPTR,
    with OOPs for the NIL object.  */
@@ -892,7 +892,7 @@ variable_binding_new (OOP key,
 }
 
 
-int
+intptr_t
 oop_num_fields (OOP oop)
 {
   gst_object object;
-- 
2.43.0


From 9ceb87234ba68d2b4a4c4e46049cdadb04b36710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:02 +0000
Subject: [PATCH 54/96] fix: do not truncate the indices of indexOf: and
 replaceFrom:to:with:startingAt:

Indices were taken modulo 2^32 and their sum could overflow; indexOf:startingAt:
also accepted indices before the first element and values that are not bytes.
---
 libgst/prims.def | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index b860e7c..20f9a53 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -3315,7 +3315,7 @@ primitive VMpr_String_hash [checks_receiver]
 primitive VMpr_ArrayedCollection_equal [succeed,fail]
 {
   OOP srcOOP, dstOOP;
-  int dstLen, srcLen;
+  intptr_t dstLen, srcLen;
   gst_uchar *dstBase, *srcBase;
   _gst_primitives_executed++;
 
@@ -3358,7 +3358,7 @@ primitive VMpr_ArrayedCollection_equal [succeed,fail]
 primitive VMpr_ArrayedCollection_indexOfStartingAt [succeed,fail]
 {
   OOP srcIndexOOP, srcOOP, targetOOP;
-  int srcIndex, srcLen, target;
+  intptr_t srcIndex, srcLen, target;
   gst_uchar *srcBase, *srcTarget;
   _gst_primitives_executed++;
 
@@ -3379,8 +3379,10 @@ primitive VMpr_ArrayedCollection_indexOfStartingAt [succeed,fail]
 
       target = IS_INT (targetOOP) ? TO_INT (targetOOP) : CHAR_OOP_VALUE (targetOOP);
       srcIndex = TO_INT (srcIndexOOP);
-      srcLen = NUM_INDEXABLE_FIELDS (srcOOP) - srcIndex + 1;
+      if UNCOMMON (target < 0 || target > 255 || srcIndex <= 0)
+	goto bad;
 
+      srcLen = NUM_INDEXABLE_FIELDS (srcOOP) - srcIndex + 1;
       if UNCOMMON (srcLen < 0)
 	goto bad;
 
@@ -3405,7 +3407,7 @@ primitive VMpr_ArrayedCollection_indexOfStartingAt [succeed,fail]
 primitive VMpr_ArrayedCollection_replaceFromToWithStartingAt [succeed,fail]
 {
   OOP srcIndexOOP, srcOOP, dstEndIndexOOP, dstStartIndexOOP, dstOOP;
-  int dstEndIndex, dstStartIndex, srcIndex, dstLen, srcLen, dstRangeLen;
+  intptr_t dstEndIndex, dstStartIndex, srcIndex, dstLen, srcLen, dstRangeLen;
   gst_uchar *dstBase, *srcBase;
   _gst_primitives_executed++;
 
@@ -3445,11 +3447,12 @@ primitive VMpr_ArrayedCollection_replaceFromToWithStartingAt [succeed,fail]
       dstOOP = STACKTOP ();
       dstLen = NUM_INDEXABLE_FIELDS (dstOOP);
       srcLen = NUM_INDEXABLE_FIELDS (srcOOP);
-      dstRangeLen = dstEndIndex - dstStartIndex + 1;
+      if UNCOMMON (dstEndIndex > dstLen || dstStartIndex <= 0)
+	goto bad;
 
+      dstRangeLen = dstEndIndex - dstStartIndex + 1;
       if UNCOMMON (dstRangeLen < 0
-		   || dstEndIndex > dstLen || dstStartIndex <= 0
-	           || srcIndex + dstRangeLen - 1 > srcLen
+	           || srcIndex > srcLen - dstRangeLen + 1
 		   || (srcIndex <= 0 && dstRangeLen > 0))
 	goto bad;
 
-- 
2.43.0


From 35facc748e5f3ea0ff6f17d8367e040ac600bf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:29 +0000
Subject: [PATCH 55/96] fix: do not push more arguments than a method can have

perform:withArguments: and valueWithArguments: pushed all elements of the array
before (or without) comparing their number with what the callee accepts, and
overflowed the context.
---
 libgst/prims.def | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 20f9a53..d1a10e0 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2756,7 +2756,8 @@ primitive VMpr_BlockClosure_valueWithArguments [fail,reload_ip]
 
   oop2 = POP_OOP ();
   oop1 = STACKTOP ();
-  if (IS_CLASS (oop2, _gst_array_class))
+  if (IS_CLASS (oop2, _gst_array_class)
+      && NUM_INDEXABLE_FIELDS (oop2) <= MAX_NUM_ARGS)
     {
       int i;
       numArgs = NUM_INDEXABLE_FIELDS (oop2);
@@ -2836,7 +2837,8 @@ primitive VMpr_Object_performWithArguments [fail,reload_ip]
 
   oop2 = POP_OOP ();
   oop1 = POP_OOP ();
-  if UNCOMMON (!IS_CLASS (oop2, _gst_array_class))
+  if UNCOMMON (!IS_CLASS (oop2, _gst_array_class)
+	       || NUM_INDEXABLE_FIELDS (oop2) > MAX_NUM_ARGS)
     {
       UNPOP (2);
       PRIM_FAILED;
-- 
2.43.0


From a6240042e177c2e8df090b7bcc714194a160b53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:09 +0000
Subject: [PATCH 56/96] fix: refuse to instantiate objects whose size in bytes
 overflows

---
 libgst/dict.inl  | 4 ++++
 libgst/prims.def | 6 +++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index c15fb80..1bd5876 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -358,6 +358,10 @@ static inline uint64_t to_c_uint_64 (OOP oop);
 #define CLASS_FIXED_FIELDS(oop) \
   (CLASS_INSTANCE_SPEC(oop) >> ISP_NUMFIXEDFIELDS)
 
+/* The size in bytes of an object with this many indexed instance variables
+   does not overflow, whatever its class.  */
+#define MAX_INDEXED_FIELDS ((intptr_t) (MAX_ST_INT / sizeof (double)))
+
 /* Answer the number of indexed instance variables in OOP (if any).  */
 #define NUM_INDEXABLE_FIELDS(oop) \
 	(IS_INT(oop) ? 0 : oop_num_fields(oop) - OOP_FIXED_FIELDS(oop))
diff --git a/libgst/prims.def b/libgst/prims.def
index d1a10e0..9f1e26c 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2342,7 +2342,7 @@ primitive VMpr_Behavior_basicNewColon = 71 [succeed,fail,inlined]
 	{
 	  intptr_t arg2;
 	  arg2 = TO_INT (oop2);
-	  if (arg2 >= 0)
+	  if (arg2 >= 0 && arg2 <= MAX_INDEXED_FIELDS)
 	    {
 	      OOP result;
 	      instantiate_with (oop1, arg2, &result);
@@ -2371,7 +2371,7 @@ primitive VMpr_Behavior_newColonInitialize [succeed,fail,reload_ip]
 	{
 	  intptr_t arg2;
 	  arg2 = TO_INT (oop2);
-	  if (arg2 >= 0)
+	  if (arg2 >= 0 && arg2 <= MAX_INDEXED_FIELDS)
 	    {
 	      OOP result;
 	      instantiate_with (oop1, arg2, &result);
@@ -4719,7 +4719,7 @@ primitive VMpr_Behavior_basicNewFixedColon [succeed,fail]
 	{
 	  intptr_t arg2;
 	  arg2 = TO_INT (oop2);
-	  if (arg2 >= 0)
+	  if (arg2 >= 0 && arg2 <= MAX_INDEXED_FIELDS)
 	    {
 	      OOP result;
 	      instantiate_with (oop1, arg2, &result);
-- 
2.43.0


From fe3c69594fc44cd0f164c8fe46c7d9b465969b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:25 +0000
Subject: [PATCH 57/96] fix: check sizes and garbage-collected storage of C
 objects

fromCData:size: and alloc:type: accepted negative sizes; fromCData:, fromCData:size:
and replaceWith: did not check the bounds of garbage-collected storage.
---
 libgst/dict.inl  | 18 ++++++++++++++++++
 libgst/prims.def | 22 +++++++++++++++-------
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index 1bd5876..fe1e2ba 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -1616,3 +1616,21 @@ static inline mst_Boolean cobject_index_check (OOP oop, intptr_t offset,
 
   return (offset + size - 1 < maxOffset);
 }
+
+/* Return how many bytes there are from the address of the data stored in
+   a CObject to the end of its storage.  */
+static inline size_t
+cobject_num_bytes (OOP oop)
+{
+  gst_cobject cObj = (gst_cobject) OOP_TO_OBJ (oop);
+  OOP baseOOP = cObj->storage;
+  size_t size;
+  if (IS_NIL (baseOOP))
+    return MAX_ST_INT;
+
+  size = SIZE_TO_BYTES (NUM_WORDS (OOP_TO_OBJ (baseOOP)));
+  if (baseOOP->flags & F_BYTE)
+    size -= (baseOOP->flags & EMPTY_BYTES);
+
+  return COBJECT_OFFSET_OBJ (cObj) < size ? size - COBJECT_OFFSET_OBJ (cObj) : 0;
+}
diff --git a/libgst/prims.def b/libgst/prims.def
index 9f1e26c..42c8aec 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -4285,6 +4285,7 @@ primitive VMpr_CObject_allocType [succeed,fail]
   oop2 = STACK_AT (1);
   oop3 = STACK_AT (2);
   if (IS_INT (oop2)
+      && TO_INT (oop2) >= 0
       && (IS_NIL (oop1) || is_a_kind_of (OOP_INT_CLASS (oop1), _gst_c_type_class))
       && COMMON (RECEIVER_IS_A_KIND_OF (oop3, _gst_c_object_class)))
     {
@@ -5157,8 +5158,9 @@ primitive VMpr_CString_replaceWith [succeed,fail]
      is the correct size; does not (re)allocate receiver's string at
      all.  */
 
-  if (IS_CLASS (oop2, _gst_string_class)
-      || IS_CLASS (oop2, _gst_byte_array_class))
+  if ((IS_CLASS (oop2, _gst_string_class)
+       || IS_CLASS (oop2, _gst_byte_array_class))
+      && cobject_index_check (oop1, 0, sizeof (gst_uchar *)))
     {
       size_t srcLen;
       gst_uchar *dstBase, *srcBase;
@@ -5187,7 +5189,10 @@ primitive VMpr_ByteArray_fromCData_size [succeed,fail]
   oop2 = STACK_AT (1);
   oop1 = STACK_AT (2);
   if (IS_INT (oop3)
-      && is_a_kind_of (OOP_INT_CLASS (oop2), _gst_c_object_class))
+      && TO_INT (oop3) >= 0
+      && is_a_kind_of (OOP_INT_CLASS (oop2), _gst_c_object_class)
+      && (TO_INT (oop3) == 0
+	  || cobject_index_check (oop2, 0, TO_INT (oop3))))
     {
       intptr_t arg3 = TO_INT (oop3);
       OOP byteArrayOOP;
@@ -5218,7 +5223,10 @@ primitive VMpr_String_fromCData_size [succeed,fail]
   oop2 = STACK_AT (1);
   oop1 = STACK_AT (2);
   if (IS_INT (oop3)
-      && is_a_kind_of (OOP_INT_CLASS (oop2), _gst_c_object_class))
+      && TO_INT (oop3) >= 0
+      && is_a_kind_of (OOP_INT_CLASS (oop2), _gst_c_object_class)
+      && (TO_INT (oop3) == 0
+	  || cobject_index_check (oop2, 0, TO_INT (oop3))))
     {
       intptr_t arg3 = TO_INT (oop3);
       OOP stringOOP;
@@ -5254,7 +5262,7 @@ primitive VMpr_String_fromCData [succeed,fail]
     PRIM_FAILED;
 
   s = cobject_value (oop2);
-  len = s ? strlen (s) : 0;
+  len = s ? strnlen (s, cobject_num_bytes (oop2)) : 0;
   string = (gst_string)
     new_instance_with (_gst_string_class, len, &stringOOP);
   if (len)
@@ -5278,8 +5286,8 @@ primitive VMpr_String_ByteArray_asCData :
   oop1 = STACK_AT (1);
   if (is_a_kind_of (OOP_INT_CLASS (oop2), _gst_c_type_class))
     {
-      int size = NUM_INDEXABLE_FIELDS (oop1);
-      int alloc_size = (id == prim_id (VMpr_String_asCData)) ? size + 1 : size;
+      size_t size = NUM_INDEXABLE_FIELDS (oop1);
+      size_t alloc_size = (id == prim_id (VMpr_String_asCData)) ? size + 1 : size;
       char *data = xmalloc (alloc_size);
       OOP cObjectOOP = COBJECT_NEW (data, oop2, _gst_c_object_class);
       memcpy (data, OOP_TO_OBJ (oop1)->data, size);
-- 
2.43.0


From 8abc41b0dbe6ab9a2c23a382dc86016bc421bfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:34 +0000
Subject: [PATCH 58/96] fix: transfers to and from objects with instance
 variables

Reads and writes of files and sockets took the named instance variables of a
byte-shaped object as the beginning of its contents, and a read overwrote them.
---
 libgst/dict.inl  |  4 ++++
 libgst/prims.def | 12 ++++++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index fe1e2ba..4a817e6 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -366,6 +366,10 @@ static inline uint64_t to_c_uint_64 (OOP oop);
 #define NUM_INDEXABLE_FIELDS(oop) \
 	(IS_INT(oop) ? 0 : oop_num_fields(oop) - OOP_FIXED_FIELDS(oop))
 
+/* Answer the address of the indexed instance variables of OOP.  */
+#define INDEXED_OOP_BYTES(oop) \
+	((char *) (OOP_TO_OBJ(oop)->data + OOP_FIXED_FIELDS(oop)))
+
 /* Answer the INDEX-th indexed instance variable in ARRAYOOP.  */
 #define ARRAY_AT(arrayOOP, index) \
 	( OOP_TO_OBJ(arrayOOP)->data[(index)-1] )
diff --git a/libgst/prims.def b/libgst/prims.def
index 42c8aec..50867ef 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -5817,7 +5817,7 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
           && _gst_log2_sizes[OOP_INSTANCE_SPEC (oopVec[1]) & ISP_SHAPE] == 0
 	  && IS_INT (oopVec[2]) && IS_INT (oopVec[3]))
 	{
-	  char *data = STRING_OOP_CHARS (oopVec[1]);
+	  char *data = INDEXED_OOP_BYTES (oopVec[1]);
 	  intptr_t from = TO_INT (oopVec[2]);
 	  intptr_t to = TO_INT (oopVec[3]);
 	  ssize_t result;
@@ -5840,7 +5840,7 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
           && _gst_log2_sizes[OOP_INSTANCE_SPEC (oopVec[1]) & ISP_SHAPE] == 0
 	  && IS_INT (oopVec[2]) && IS_INT (oopVec[3]))
 	{
-	  char *data = STRING_OOP_CHARS (oopVec[1]);
+	  char *data = INDEXED_OOP_BYTES (oopVec[1]);
 	  intptr_t from = TO_INT (oopVec[2]);
 	  intptr_t to = TO_INT (oopVec[3]);
 	  ssize_t result;
@@ -5869,7 +5869,7 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
 	  && IS_INT (oopVec[2]) && IS_INT (oopVec[3])
 	  && IS_OFF_T (oopVec[4]))
 	{
-	  char *data = STRING_OOP_CHARS (oopVec[1]);
+	  char *data = INDEXED_OOP_BYTES (oopVec[1]);
 	  intptr_t from = TO_INT (oopVec[2]);
 	  intptr_t to = TO_INT (oopVec[3]);
 	  off_t ofs = TO_OFF_T (oopVec[4]);
@@ -5913,7 +5913,7 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
 	  && IS_INT (oopVec[2]) && IS_INT (oopVec[3])
 	  && IS_OFF_T (oopVec[4]))
 	{
-	  char *data = STRING_OOP_CHARS (oopVec[1]);
+	  char *data = INDEXED_OOP_BYTES (oopVec[1]);
 	  intptr_t from = TO_INT (oopVec[2]);
 	  intptr_t to = TO_INT (oopVec[3]);
 	  off_t ofs = TO_OFF_T (oopVec[4]);
@@ -6091,7 +6091,7 @@ primitive VMpr_FileDescriptor_socketOp [succeed,fail]
           && _gst_log2_sizes[OOP_INSTANCE_SPEC (oopVec[1]) & ISP_SHAPE] == 0
 	  && IS_INT (oopVec[2]) && IS_INT (oopVec[3]))
 	{
-	  char *data = STRING_OOP_CHARS (oopVec[1]);
+	  char *data = INDEXED_OOP_BYTES (oopVec[1]);
 	  intptr_t from = TO_INT (oopVec[2]);
 	  intptr_t to = TO_INT (oopVec[3]);
 	  ssize_t result;
@@ -6115,7 +6115,7 @@ primitive VMpr_FileDescriptor_socketOp [succeed,fail]
           && _gst_log2_sizes[OOP_INSTANCE_SPEC (oopVec[1]) & ISP_SHAPE] == 0
 	  && IS_INT (oopVec[2]) && IS_INT (oopVec[3]))
 	{
-	  char *data = STRING_OOP_CHARS (oopVec[1]);
+	  char *data = INDEXED_OOP_BYTES (oopVec[1]);
 	  intptr_t from = TO_INT (oopVec[2]);
 	  intptr_t to = TO_INT (oopVec[3]);
 	  ssize_t result;
-- 
2.43.0


From ede9f1d92d09825d75bf0c678cb2a3663b4269e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:46 +0000
Subject: [PATCH 59/96] fix: the position of a random generator can be stored
 by at:put:

---
 libgst/interp.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/interp.inl b/libgst/interp.inl
index dbc631b..8e3d72f 100644
--- a/libgst/interp.inl
+++ b/libgst/interp.inl
@@ -220,7 +220,7 @@ uint32_t
 random_next (uint32_t *mt)
 {
   const int N = RANDOM_SIZE - 1; 
-  int mt_index = mt[N];
+  int mt_index = mt[N] % N;
   uint32_t y;
   if (mt_index == 0)
     random_generate(mt);
-- 
2.43.0


From 2aba866c63d63add693b6efa982723372086c0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:32 +0000
Subject: [PATCH 60/96] fix: asCData must not copy the instance variables of a
 string

---
 libgst/prims.def | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 50867ef..f57e7f2 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -5290,7 +5290,7 @@ primitive VMpr_String_ByteArray_asCData :
       size_t alloc_size = (id == prim_id (VMpr_String_asCData)) ? size + 1 : size;
       char *data = xmalloc (alloc_size);
       OOP cObjectOOP = COBJECT_NEW (data, oop2, _gst_c_object_class);
-      memcpy (data, OOP_TO_OBJ (oop1)->data, size);
+      memcpy (data, INDEXED_OOP_BYTES (oop1), size);
       if (id == prim_id (VMpr_String_asCData))
 	data[size] = 0;
       POP_N_OOPS (1);
-- 
2.43.0


From e43187d2f0fbc88812f46c855744c3a717c8697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:32 +0000
Subject: [PATCH 61/96] fix: allocate room for the characters of a wide C
 string

---
 libgst/dict.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/dict.c b/libgst/dict.c
index 35fc129..7bb6d91 100644
--- a/libgst/dict.c
+++ b/libgst/dict.c
@@ -2025,7 +2025,7 @@ _gst_to_wide_cstring (OOP stringOOP)
 
   string = (gst_unicode_string) OOP_TO_OBJ (stringOOP);
   len = oop_num_fields (stringOOP);
-  result = (wchar_t *) xmalloc (len + 1);
+  result = (wchar_t *) xmalloc ((len + 1) * sizeof (wchar_t));
   if (sizeof (wchar_t) == 4)
     memcpy (result, string->chars, len * sizeof (wchar_t));
   else
-- 
2.43.0


From e4059d433862dc55e0eb2bc75cf23ac09fe071c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:32 +0000
Subject: [PATCH 62/96] fix: C strings and bytes made from objects with
 instance variables

---
 libgst/dict.c | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/libgst/dict.c b/libgst/dict.c
index 7bb6d91..61f14da 100644
--- a/libgst/dict.c
+++ b/libgst/dict.c
@@ -2004,12 +2004,10 @@ _gst_to_cstring (OOP stringOOP)
 {
   char *result;
   size_t len;
-  gst_string string;
 
-  string = (gst_string) OOP_TO_OBJ (stringOOP);
-  len = oop_num_fields (stringOOP);
+  len = NUM_INDEXABLE_FIELDS (stringOOP);
   result = (char *) xmalloc (len + 1);
-  memcpy (result, string->chars, len);
+  memcpy (result, INDEXED_OOP_BYTES (stringOOP), len);
   result[len] = '\0';
 
   return (result);
@@ -2020,17 +2018,17 @@ _gst_to_wide_cstring (OOP stringOOP)
 {
   wchar_t *result, *p;
   size_t len;
-  gst_unicode_string string;
-  int i;
+  uint32_t *chars;
+  size_t i;
 
-  string = (gst_unicode_string) OOP_TO_OBJ (stringOOP);
-  len = oop_num_fields (stringOOP);
+  chars = (uint32_t *) INDEXED_OOP_BYTES (stringOOP);
+  len = NUM_INDEXABLE_FIELDS (stringOOP);
   result = (wchar_t *) xmalloc ((len + 1) * sizeof (wchar_t));
   if (sizeof (wchar_t) == 4)
-    memcpy (result, string->chars, len * sizeof (wchar_t));
+    memcpy (result, chars, len * sizeof (wchar_t));
   else
     for (p = result, i = 0; i < len; i++)
-      *p++ = string->chars[i];
+      *p++ = chars[i];
   result[len] = '\0';
 
   return (result);
@@ -2057,12 +2055,10 @@ _gst_to_byte_array (OOP byteArrayOOP)
 {
   gst_uchar *result;
   size_t len;
-  gst_byte_array byteArray;
 
-  byteArray = (gst_byte_array) OOP_TO_OBJ (byteArrayOOP);
-  len = oop_num_fields (byteArrayOOP);
+  len = NUM_INDEXABLE_FIELDS (byteArrayOOP);
   result = (gst_uchar *) xmalloc (len);
-  memcpy (result, byteArray->bytes, len);
+  memcpy (result, INDEXED_OOP_BYTES (byteArrayOOP), len);
 
   return (result);
 }
@@ -2071,12 +2067,10 @@ void
 _gst_set_oop_bytes (OOP byteArrayOOP,
 		    gst_uchar * bytes)
 {
-  gst_byte_array byteArray;
   size_t len;
 
-  len = oop_num_fields (byteArrayOOP);
-  byteArray = (gst_byte_array) OOP_TO_OBJ (byteArrayOOP);
-  memcpy (byteArray->bytes, bytes, len);
+  len = NUM_INDEXABLE_FIELDS (byteArrayOOP);
+  memcpy (INDEXED_OOP_BYTES (byteArrayOOP), bytes, len);
 }
 
 
-- 
2.43.0


From 131aaab9415787ee09fb4a28161356776f14dd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 63/96] fix: dividing the smallest SmallInteger by -1 gives a
 LargeInteger

---
 kernel/SmallInt.st |  4 ++++
 libgst/prims.def   | 25 +++++++++++++++++--------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/kernel/SmallInt.st b/kernel/SmallInt.st
index 2e1c575..b33536d 100644
--- a/kernel/SmallInt.st
+++ b/kernel/SmallInt.st
@@ -275,6 +275,7 @@ represent signed 30 bit integers and are as efficient as possible.'>
 	<category: 'built ins'>
 	<primitive: VMpr_SmallInteger_divide>
 	arg = 0 ifTrue: [^self zeroDivide].
+	arg == -1 ifTrue: [^0 - self].
 	^arg class == self class 
 	    ifTrue: [(Fraction numerator: self denominator: arg) reduce]
 	    ifFalse: [self retryDivisionCoercing: arg]
@@ -297,6 +298,7 @@ represent signed 30 bit integers and are as efficient as possible.'>
 	<category: 'built ins'>
 	<primitive: VMpr_SmallInteger_intDiv>
 	arg = 0 ifTrue: [^self zeroDivide].
+	arg == -1 ifTrue: [^0 - self].
 	^self retry: #// coercing: arg
     ]
 
@@ -310,6 +312,7 @@ represent signed 30 bit integers and are as efficient as possible.'>
 	<primitive: VMpr_SmallInteger_quo>
 	self = 0 ifTrue: [^0].
 	arg = 0 ifTrue: [^self zeroDivide].
+	arg == -1 ifTrue: [^0 - self].
 	^self retry: #divExact: coercing: arg
     ]
 
@@ -320,6 +323,7 @@ represent signed 30 bit integers and are as efficient as possible.'>
 	<category: 'built ins'>
 	<primitive: VMpr_SmallInteger_quo>
 	arg = 0 ifTrue: [^self zeroDivide].
+	arg == -1 ifTrue: [^0 - self].
 	^self retry: #quo: coercing: arg
     ]
 
diff --git a/libgst/prims.def b/libgst/prims.def
index f57e7f2..e8b9d0c 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -196,7 +196,7 @@ primitive VMpr_SmallInteger_divide [succeed,fail]
       iarg2 = TO_INT (oop2);
       result = iarg1 / iarg2;
       iarg2 *= result;
-      if COMMON (iarg1 == iarg2)
+      if COMMON (iarg1 == iarg2 && !INT_OVERFLOW (result))
 	{
 	  PUSH_INT (result);
 	  PRIM_SUCCEEDED;
@@ -251,11 +251,16 @@ primitive VMpr_SmallInteger_intDiv [succeed,fail]
 	  iarg2 = -iarg2;
 	}
       if (iarg1 < 0)		/* differing signs => use black magic */
-	PUSH_INT (-((iarg2 - 1 - iarg1) / iarg2));
-      else
-	PUSH_INT (iarg1 / iarg2);
-
-      PRIM_SUCCEEDED;
+	{
+	  PUSH_INT (-((iarg2 - 1 - iarg1) / iarg2));
+	  PRIM_SUCCEEDED;
+	}
+      iarg1 /= iarg2;
+      if COMMON (!INT_OVERFLOW (iarg1))
+	{
+	  PUSH_INT (iarg1);
+	  PRIM_SUCCEEDED;
+	}
     }
   UNPOP (2);
   PRIM_FAILED;
@@ -278,8 +283,12 @@ primitive VMpr_SmallInteger_quo [succeed,fail]
       iarg2 = TO_INT (oop2);
       if COMMON (iarg2 != 0)
 	{
-	  PUSH_INT (iarg1 / iarg2);
-	  PRIM_SUCCEEDED;
+	  iarg1 /= iarg2;
+	  if COMMON (!INT_OVERFLOW (iarg1))
+	    {
+	      PUSH_INT (iarg1);
+	      PRIM_SUCCEEDED;
+	    }
 	}
     }
   UNPOP (2);
-- 
2.43.0


From e290c563a2bac56ae5a76b69b76175cf412fa5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 64/96] fix: truncating 2 raisedTo: 62 does not give a negative
 SmallInteger

---
 libgst/prims.def | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index e8b9d0c..82c701c 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -1547,7 +1547,7 @@ primitive VMpr_FloatD_truncated [succeed,fail]
   if COMMON (RECEIVER_IS_CLASS (oop1, _gst_floatd_class))
     {
       double oopValue = FLOATD_OOP_VALUE (oop1);
-      if COMMON (oopValue >= MIN_ST_INT && oopValue <= MAX_ST_INT)
+      if COMMON (oopValue >= MIN_ST_INT && oopValue < OVERFLOWING_INT)
 	{
 	  PUSH_INT (lrint (trunc (oopValue)));
 	  PRIM_SUCCEEDED;
@@ -1743,7 +1743,7 @@ primitive VMpr_FloatE_truncated [succeed,fail]
   if COMMON (RECEIVER_IS_CLASS (oop1, _gst_floate_class))
     {
       double oopValue = FLOATE_OOP_VALUE (oop1);
-      if COMMON (oopValue >= MIN_ST_INT && oopValue <= MAX_ST_INT)
+      if COMMON (oopValue >= MIN_ST_INT && oopValue < OVERFLOWING_INT)
 	{
 	  PUSH_INT (lrintf (truncf (oopValue)));
 	  PRIM_SUCCEEDED;
@@ -1939,7 +1939,7 @@ primitive VMpr_FloatQ_truncated [succeed,fail]
   if COMMON (RECEIVER_IS_CLASS (oop1, _gst_floatq_class))
     {
       long double oopValue = FLOATQ_OOP_VALUE (oop1);
-      if COMMON (oopValue >= MIN_ST_INT && oopValue <= MAX_ST_INT)
+      if COMMON (oopValue >= MIN_ST_INT && oopValue < OVERFLOWING_INT)
 	{
 	  PUSH_INT (lrintl (truncl (oopValue)));
 	  PRIM_SUCCEEDED;
-- 
2.43.0


From c50040c1e2267a88aab568239068a152ba79720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 65/96] fix: ceiling and floor of a FloatQ do not lose digits

---
 libgst/prims.def | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 82c701c..0877d79 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -4664,16 +4664,16 @@ primitive VMpr_Float_ceil_floor :
      prim_id VMpr_Float_floor [succeed,fail]
 {
   OOP oop1;
-  double farg1;
+  long double farg1;
   _gst_primitives_executed++;
 
   oop1 = STACKTOP ();
   if (IS_CLASS (oop1, _gst_floatd_class))
     farg1 = FLOATD_OOP_VALUE (oop1);
   else if (IS_CLASS (oop1, _gst_floate_class))
-    farg1 = (double) FLOATE_OOP_VALUE (oop1);
+    farg1 = FLOATE_OOP_VALUE (oop1);
   else if (IS_CLASS (oop1, _gst_floatq_class))
-    farg1 = (double) FLOATQ_OOP_VALUE (oop1);
+    farg1 = FLOATQ_OOP_VALUE (oop1);
   else
     PRIM_FAILED;
 
@@ -4682,10 +4682,10 @@ primitive VMpr_Float_ceil_floor :
       switch (id)
         {
         case prim_id (VMpr_Float_ceil):
-          SET_STACKTOP_INT ((intptr_t) ceil (farg1));
+          SET_STACKTOP_INT ((intptr_t) ceill (farg1));
           PRIM_SUCCEEDED;
         case prim_id (VMpr_Float_floor):
-          SET_STACKTOP_INT ((intptr_t) floor (farg1));
+          SET_STACKTOP_INT ((intptr_t) floorl (farg1));
           PRIM_SUCCEEDED;
         }
     }
-- 
2.43.0


From 8089bd1624209fa0892989920506753934a6fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 66/96] fix: getTraceFlag: answers the value of the flag

---
 libgst/prims.def | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 0877d79..3e469f6 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -3749,7 +3749,7 @@ primitive VMpr_SystemDictionary_getTraceFlag [succeed,fail]
       value = _gst_get_var (arg2);
       if (value != -1)
 	{
-	  oop1 = (value > 1 ? FROM_INT (oop2 ) :
+	  oop1 = (value > 1 ? FROM_INT (value) :
 		  (value ? _gst_true_oop : _gst_false_oop));
 	  PUSH_OOP (oop1);
 	  PRIM_SUCCEEDED;
-- 
2.43.0


From 006a340b4d1297742914fd5e13c26514a927be85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 67/96] fix: the size of a file may be a LargeInteger

---
 libgst/prims.def | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 3e469f6..c5e5803 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -5816,7 +5816,7 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
 	    errno = 0;
 	    break;
 	  }
-	resultOOP = FROM_INT (statBuf.st_size);
+	resultOOP = FROM_OFF_T (statBuf.st_size);
 	goto succeed;
       }
 
-- 
2.43.0


From 4edd354ecdf884d5093f8f75c331f665a56f7fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:56 +0000
Subject: [PATCH 68/96] fix: characters above 127 passed by C code

---
 libgst/callin.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libgst/callin.c b/libgst/callin.c
index eda0cee..a302f33 100644
--- a/libgst/callin.c
+++ b/libgst/callin.c
@@ -240,7 +240,7 @@ _gst_va_msg_sendf (PTR resultPtr,
           break;
 
         case 'c':
-          args[++i] = CHAR_OOP_AT ((char) va_arg (ap, int));
+          args[++i] = CHAR_OOP_AT ((gst_uchar) va_arg (ap, int));
 	  INC_ADD_OOP (args[i]);
           break;
 
@@ -541,7 +541,7 @@ _gst_char_to_oop (char c)
   if (!_gst_smalltalk_initialized)
     _gst_initialize (NULL, NULL, GST_NO_TTY);
 
-  return (CHAR_OOP_AT (c));
+  return (CHAR_OOP_AT ((gst_uchar) c));
 }
 
 OOP
-- 
2.43.0


From 3d79ba4ff40f52b38f1dfb0294173e1ea29902e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:14 +0000
Subject: [PATCH 69/96] fix: exponents and scales of literals that do not fit
 an int are errors

---
 libgst/lex.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libgst/lex.c b/libgst/lex.c
index c16409b..c01e2df 100644
--- a/libgst/lex.c
+++ b/libgst/lex.c
@@ -949,6 +949,7 @@ scan_digits (int c,
 {
   uintptr_t result;
   mst_Boolean oneDigit = false;
+  mst_Boolean tooLarge = false;
 
   while (c == '_')
     c = _gst_next_char ();
@@ -967,6 +968,8 @@ scan_digits (int c,
 	       : (uintptr_t) MAX_ST_INT - value) / base)
 	    *largeInteger = true;
 	}
+      else if (result > (INT_MAX / 2 - value) / base)
+	tooLarge = true;
 
       _gst_real_mul_int (n, base);
       _gst_real_add_int (n, value);
@@ -984,6 +987,13 @@ scan_digits (int c,
       _gst_had_error = true;
     }
 
+  if (tooLarge)
+    {
+      _gst_errorf ("Exponent too large");
+      _gst_had_error = true;
+      result = 0;
+    }
+
   _gst_unread_char (c);
 
   return (result);
-- 
2.43.0


From 5f7fedd6366384f98674dcf766fdcbe1adf43fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:36 +0000
Subject: [PATCH 70/96] fix: keep profile counters above 2^31

The old value of a counter went through an int, so a method that was
charged more than 2^31 bytecodes wrapped to a negative count.
---
 libgst/dict.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libgst/dict.c b/libgst/dict.c
index 61f14da..2a94087 100644
--- a/libgst/dict.c
+++ b/libgst/dict.c
@@ -213,9 +213,9 @@ static size_t identity_dictionary_find_key_or_nil (OOP identityDictionaryOOP,
 
 /* assume the value is an integer already or key does not exist, increase the
    value by inc or set the value to inc */
-static int _gst_identity_dictionary_at_inc (OOP identityDictionaryOOP,
-                                            OOP keyOOP,
-                                            int inc);
+static intptr_t _gst_identity_dictionary_at_inc (OOP identityDictionaryOOP,
+                                                 OOP keyOOP,
+                                                 intptr_t inc);
 
 /* Create a new instance of Namespace with the given SIZE, NAME and
    superspace (SUPERSPACEOOP).  */
@@ -2225,15 +2225,15 @@ _gst_record_profile (OOP oldMethod, OOP newMethod, int ipOffset)
 
 /* Assume the value for KEYOOP is an integer already or the key does not exist;
    increase the value by INC or set it to INC if it does not exist.  */
-int
+intptr_t
 _gst_identity_dictionary_at_inc (OOP identityDictionaryOOP,
                                 OOP keyOOP,
-                                int inc)
+                                intptr_t inc)
 {
   gst_object identityDictionary;
   gst_identity_dictionary identDict;
   intptr_t index;
-  int oldValue;
+  intptr_t oldValue;
   size_t numFixedFields;
 
   identityDictionary = OOP_TO_OBJ (identityDictionaryOOP);
-- 
2.43.0


From 43cc43ccd687925d5b0b65aa64351ffb7b2b9c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:40 +0000
Subject: [PATCH 71/96] fix: file times after 2068 do not wrap around

The seconds since 2000 went through an int on their way to the fields of
a Kernel.Stat object.
---
 libgst/cint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/cint.c b/libgst/cint.c
index 8afcf44..4ec891a 100644
--- a/libgst/cint.c
+++ b/libgst/cint.c
@@ -291,7 +291,7 @@ get_errno (void)
     return (old);
 }
 
-static inline int
+static inline intptr_t
 adjust_time (time_t t)
 {
   return _gst_adjust_time_zone (t) - 86400 * 10957;
-- 
2.43.0


From 66f82e239cfdbd2e509a07d0f51201aa11fed418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:28 +0000
Subject: [PATCH 72/96] fix: $<N> with N above 2^32 is out of range

The code point was truncated to an int before it was compared with the
last code point, so $<4294967361> was read as $A.
---
 libgst/gst-parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/gst-parse.c b/libgst/gst-parse.c
index ddaa9b1..66c9220 100644
--- a/libgst/gst-parse.c
+++ b/libgst/gst-parse.c
@@ -1749,7 +1749,7 @@ static tree_node
 parse_literal (gst_parser *p, mst_Boolean array)
 {
   tree_node node;
-  int ival;
+  intptr_t ival;
   int tok = token (p, 0);
 
   switch (tok)
-- 
2.43.0


From a87fc431beeaa5d67357a7671d330faebed13908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:33 +0000
Subject: [PATCH 73/96] fix: 16r-5000000000000000 is not a positive
 SmallInteger

The magnitude of a negative number was compared with MIN_ST_INT converted
to an unsigned number, which is not its absolute value.
---
 libgst/lex.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libgst/lex.c b/libgst/lex.c
index c01e2df..fcc973f 100644
--- a/libgst/lex.c
+++ b/libgst/lex.c
@@ -963,8 +963,7 @@ scan_digits (int c,
 	  obstack_1grow (_gst_compilation_obstack, digit_to_int (c, base));
 	  if (result >
 	      (negative
-	       /* We want (uintptr_t) -MIN_ST_INT, but it's the same.  */
-	       ? (uintptr_t) MIN_ST_INT - value
+	       ? -(uintptr_t) MIN_ST_INT - value
 	       : (uintptr_t) MAX_ST_INT - value) / base)
 	    *largeInteger = true;
 	}
@@ -1023,8 +1022,7 @@ scan_fraction (int c,
 	  obstack_1grow (_gst_compilation_obstack, digit_to_int (c, base));
 	  if (intNum >
 	      (negative
-	       /* We want (uintptr_t) -MIN_ST_INT, but it's the same.  */
-	       ? (uintptr_t) MIN_ST_INT - value
+	       ? -(uintptr_t) MIN_ST_INT - value
 	       : (uintptr_t) MAX_ST_INT - value) / base)
 	    *largeInteger = true;
 	}
-- 
2.43.0


From f1d09cabb67ad9bc0a75903e5f96b9c145d12093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:33 +0000
Subject: [PATCH 74/96] fix: nextValidOop does not skip every other object

OOP_INDEX_VALID evaluates its argument twice, so that incrementing the
index in the argument stepped over every second entry of the object table.
---
 libgst/prims.def | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index c5e5803..32993ce 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2510,7 +2510,7 @@ primitive VMpr_SmallInteger_nextValidOop [succeed,fail]
 
   oop1 = STACKTOP ();
   arg1 = TO_INT (oop1);
-  while (OOP_INDEX_VALID (++arg1))
+  for (arg1++; OOP_INDEX_VALID (arg1); arg1++)
     {
       oop1 = OOP_AT (arg1);
       if (IS_OOP_VALID (oop1))
-- 
2.43.0


From d9fba0366c5da8a2c098b7c0af80f319766f97cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:05 +0000
Subject: [PATCH 75/96] fix: unsigned 64-bit conversions of numbers above 2^63

---
 libgst/dict.inl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index 4a817e6..33652a1 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -1468,7 +1468,12 @@ to_c_uint_64 (OOP oop)
     return (TO_INT (oop));
 
   ba = (gst_byte_array) OOP_TO_OBJ (oop);
-  mask = (((uint64_t)2) << (NUM_INDEXABLE_FIELDS (oop) * 8 - 1)) - 1;
+  /* A ninth byte, if present, is zero.  */
+  if (NUM_INDEXABLE_FIELDS (oop) < 8)
+    mask = (((uint64_t)1) << (NUM_INDEXABLE_FIELDS (oop) * 8)) - 1;
+  else
+    mask = ~(uint64_t) 0;
+
   result = ((int64_t) (
 	   (((uint64_t) ba->bytes[3]) << 24) +
 	   (((uint64_t) ba->bytes[2]) << 16) +
-- 
2.43.0


From 6b520409da9034fd8d5b0e678f1685a982d7de34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:05 +0000
Subject: [PATCH 76/96] fix: accept the largest int and unsigned int where they
 fit

---
 libgst/dict.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index 33652a1..308fa0a 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -1297,7 +1297,7 @@ is_c_int_32 (OOP oop)
 #if SIZEOF_OOP == 4
     return (true);
 #else
-    return (TO_INT (oop) >= INT_MIN && TO_INT (oop) < INT_MAX);
+    return (TO_INT (oop) >= INT_MIN && TO_INT (oop) <= INT_MAX);
 #endif
 
   ba = (gst_byte_array) OOP_TO_OBJ (oop);
@@ -1317,7 +1317,7 @@ is_c_uint_32 (OOP oop)
 #if SIZEOF_OOP == 4
     return (TO_INT (oop) >= 0);
 #else
-    return (TO_INT (oop) >= 0 && TO_INT (oop) < UINT_MAX);
+    return (TO_INT (oop) >= 0 && TO_INT (oop) <= UINT_MAX);
 #endif
 
   ba = (gst_byte_array) OOP_TO_OBJ (oop);
-- 
2.43.0


From 16a84e8c79a196b122a43a25a2a509adaff8cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:52 +0000
Subject: [PATCH 77/96] fix: values above 2^63 stored as unsigned long C data

---
 libgst/dict.inl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libgst/dict.inl b/libgst/dict.inl
index 308fa0a..d99839b 100644
--- a/libgst/dict.inl
+++ b/libgst/dict.inl
@@ -1500,7 +1500,12 @@ to_c_int_64 (OOP oop)
     return (TO_INT (oop));
 
   ba = (gst_byte_array) OOP_TO_OBJ (oop);
-  mask = (((uint64_t)2) << (NUM_INDEXABLE_FIELDS (oop) * 8 - 1)) - 1;
+  /* Only the first eight bytes are used.  */
+  if (NUM_INDEXABLE_FIELDS (oop) < 8)
+    mask = (((uint64_t)1) << (NUM_INDEXABLE_FIELDS (oop) * 8)) - 1;
+  else
+    mask = ~(uint64_t) 0;
+
   result = (ba->objClass == _gst_large_negative_integer_class) ? ~mask : 0;
   result |= ((int64_t) (
 	   (((uint64_t) ba->bytes[3]) << 24) +
-- 
2.43.0


From 2e7723300bf6e3c63ba2265b1f335031f24a000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:52 +0000
Subject: [PATCH 78/96] fix: values above 2^31 can be stored as unsigned int C
 data

---
 libgst/prims.def | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 32993ce..b66c86d 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -5070,7 +5070,7 @@ primitive VMpr_CObject_atPut [succeed,fail]
 
 	case CDATA_INT:		/* int */
 	case CDATA_UINT:		/* uint */
-	  if (IS_C_INT (oop3))
+	  if (IS_C_INT (oop3) || is_c_uint_32 (oop3))
 	    {
 	      *(int *) addr = (int) TO_C_INT (oop3);
 	      PRIM_SUCCEEDED;
-- 
2.43.0


From 37ba85832b67fb848ada546beba5085f5080eb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:49 +0000
Subject: [PATCH 79/96] fix: at:put: bytecode stored into read-only objects
 when the class was cached

---
 libgst/vm.def | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libgst/vm.def b/libgst/vm.def
index 9709369..30ee4dd 100644
--- a/libgst/vm.def
+++ b/libgst/vm.def
@@ -486,6 +486,7 @@ operation AT_PUT_SPECIAL ( rec idx val -- res ) {
     }
 
   if COMMON (at_put_cache_class == (classOOP = OOP_CLASS (rec))
+             && !IS_OOP_READONLY (rec)
              && !cached_index_oop_put_primitive (rec, idx, val, at_put_cache_spec))
     {
       IMPORT_REGS ();
-- 
2.43.0


From 6cf31cc4155d621f0cf04edee06294d836eaef35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:49 +0000
Subject: [PATCH 80/96] fix: instVarAt:put: changed read-only objects

---
 libgst/prims.def | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index b66c86d..cb34f3e 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2449,7 +2449,7 @@ primitive VMpr_Object_instVarAtPut = 74 [succeed,fail,inlined]
   oop3 = POP_OOP ();
   oop2 = POP_OOP ();
   oop1 = STACKTOP ();
-  if COMMON (IS_INT (oop2))
+  if COMMON (IS_INT (oop2) && !IS_OOP_READONLY (oop1))
     {
       intptr_t arg2;
       arg2 = TO_INT (oop2);
-- 
2.43.0


From 6f53ecf43245c510aa05f3d4b73f4529f236de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:49 +0000
Subject: [PATCH 81/96] fix: changeClassTo: changed the class of read-only
 objects

---
 libgst/prims.def | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index cb34f3e..6bbfc71 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -3121,7 +3121,7 @@ primitive VMpr_Object_changeClassTo [succeed,fail]
 
   oop1 = POP_OOP ();
   oop2 = STACKTOP ();
-  if (IS_INT (oop1) || IS_INT (oop2))
+  if (IS_INT (oop1) || IS_OOP_READONLY (oop2))
     {
       UNPOP (1);
       PRIM_FAILED;
-- 
2.43.0


From 42106648f8afe627050a38aa0f4aba84a8fbbbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:49 +0000
Subject: [PATCH 82/96] fix: replaceFrom:to:with:startingAt: overwrote
 read-only objects

---
 libgst/prims.def | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 6bbfc71..14f53b8 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -3428,7 +3428,8 @@ primitive VMpr_ArrayedCollection_replaceFromToWithStartingAt [succeed,fail]
   dstStartIndexOOP = POP_OOP ();
   dstOOP = STACKTOP ();
   if COMMON (IS_INT (srcIndexOOP) && IS_INT (dstStartIndexOOP)
-             && IS_INT (dstEndIndexOOP) && !IS_INT (srcOOP))
+             && IS_INT (dstEndIndexOOP) && !IS_INT (srcOOP)
+             && !IS_OOP_READONLY (dstOOP))
     {
       uintptr_t srcSpec = OOP_INSTANCE_SPEC (srcOOP);
       uintptr_t dstSpec = OOP_INSTANCE_SPEC (dstOOP);
-- 
2.43.0


From 01f6fee389a7b764274d8ad1769204dd1966b9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:49 +0000
Subject: [PATCH 83/96] fix: reading from a file or socket overwrote read-only
 strings

---
 libgst/prims.def | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/libgst/prims.def b/libgst/prims.def
index 14f53b8..1f138ac 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -5845,6 +5845,11 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
       break;
 
     case PRIM_GET_CHARS:		/* only works for strings */
+      if (IS_OOP_READONLY (oopVec[1]))
+	{
+	  errno = EFAULT;
+	  break;
+	}
       if (!IS_INT(oopVec[1])
           && (OOP_INSTANCE_SPEC (oopVec[1]) & ISP_INDEXEDVARS) != GST_ISP_FIXED
           && _gst_log2_sizes[OOP_INSTANCE_SPEC (oopVec[1]) & ISP_SHAPE] == 0
@@ -5873,6 +5878,11 @@ primitive VMpr_FileDescriptor_fileOp [succeed,fail]
       break;
 
     case PRIM_GET_CHARS_AT:
+      if (IS_OOP_READONLY (oopVec[1]))
+	{
+	  errno = EFAULT;
+	  break;
+	}
       if (!IS_INT(oopVec[1])
           && (OOP_INSTANCE_SPEC (oopVec[1]) & ISP_INDEXEDVARS) != GST_ISP_FIXED
           && _gst_log2_sizes[OOP_INSTANCE_SPEC (oopVec[1]) & ISP_SHAPE] == 0
@@ -6120,6 +6130,11 @@ primitive VMpr_FileDescriptor_socketOp [succeed,fail]
       break;
 
     case PRIM_GET_CHARS:		/* only works for strings */
+      if (IS_OOP_READONLY (oopVec[1]))
+	{
+	  errno = EFAULT;
+	  break;
+	}
       if (!IS_INT(oopVec[1])
           && (OOP_INSTANCE_SPEC (oopVec[1]) & ISP_INDEXEDVARS) != GST_ISP_FIXED
           && _gst_log2_sizes[OOP_INSTANCE_SPEC (oopVec[1]) & ISP_SHAPE] == 0
-- 
2.43.0


From 7d8406acfa04355803ffabdc97c4f42879939660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:32 +0000
Subject: [PATCH 84/96] fix: release the attributes of a method with a bad
 primitive number

---
 libgst/comp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libgst/comp.c b/libgst/comp.c
index 0469993..bd8fe22 100644
--- a/libgst/comp.c
+++ b/libgst/comp.c
@@ -2702,7 +2702,13 @@ fail:
   /* The bytecodes are ours, and the attributes seen so far must not end
      in the next method.  */
   _gst_free_bytecodes (bytecodes);
-  method_attrs = NULL;
+  while (method_attrs)
+    {
+      method_attributes *next = method_attrs->next;
+      free (method_attrs);
+      method_attrs = next;
+    }
+
   INC_RESTORE_POINTER (incPtr);
   return _gst_nil_oop;
 }
-- 
2.43.0


From 660c8590b8febffb1c5e19c204b622d900640916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:31 +0000
Subject: [PATCH 85/96] fix: refuse variadic arguments that are not an Array
 before measuring them

---
 libgst/cint.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libgst/cint.c b/libgst/cint.c
index 4ec891a..432b9b0 100644
--- a/libgst/cint.c
+++ b/libgst/cint.c
@@ -873,8 +873,10 @@ _gst_invoke_croutine (OOP cFuncOOP,
 
 	case CDATA_VARIADIC:
 	case CDATA_VARIADIC_OOP:
+	  /* Anything but an Array is refused below.  */
 	  oop = CONTEXT_ARG (si++);
-	  totalArgs += NUM_WORDS (OOP_TO_OBJ (oop));
+	  if (OOP_INT_CLASS (oop) == _gst_array_class)
+	    totalArgs += NUM_WORDS (OOP_TO_OBJ (oop));
 	  haveVariadic = needPostprocessing = true;
 	  break;
 
-- 
2.43.0


From 65bd4d702a5a51f13e995f2148c2949d317f7bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:00 +0000
Subject: [PATCH 86/96] fix: reload object addresses after interning the names
 of a binding or of variables

---
 libgst/comp.c  | 40 +++++++++++++++++++++++++---------------
 libgst/input.c | 11 +++++++----
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/libgst/comp.c b/libgst/comp.c
index bd8fe22..c7f13d3 100644
--- a/libgst/comp.c
+++ b/libgst/comp.c
@@ -698,7 +698,7 @@ _gst_compile_method (tree_node method,
   int stack_depth;
   int i, argCount, tempCount;
   OOP variablesOOP, debugInfo;
-  gst_object object;
+  OOP nameOOP;
   tree_node args;
   inc_ptr incPtr;
   gst_compiled_method compiledMethod;
@@ -839,7 +839,7 @@ _gst_compile_method (tree_node method,
       if (methodOOP != _gst_nil_oop) {
         INC_ADD_OOP (methodOOP);
 
-        object = new_instance_with (_gst_array_class, argCount + tempCount, &variablesOOP);
+        new_instance_with (_gst_array_class, argCount + tempCount, &variablesOOP);
         INC_ADD_OOP (variablesOOP);
 
         args = method->v_method.selectorExpr;
@@ -847,21 +847,24 @@ _gst_compile_method (tree_node method,
 
         if (args->nodeType == TREE_BINARY_EXPR)
           {
-            object->data[i] = _gst_intern_string (args->v_expr.expression->v_list.name);
+            nameOOP = _gst_intern_string (args->v_expr.expression->v_list.name);
+            ARRAY_AT (variablesOOP, i + 1) = nameOOP;
             i += 1;
           }
         else
           {
             for (args = args->v_expr.expression; args != NULL; args = args->v_list.next)
               {
-                object->data[i] = _gst_intern_string (args->v_list.value->v_list.name);
+                nameOOP = _gst_intern_string (args->v_list.value->v_list.name);
+                ARRAY_AT (variablesOOP, i + 1) = nameOOP;
                 i += 1;
               }
           }
 
         for (args = method->v_method.temporaries; args != NULL; args = args->v_list.next)
           {
-            object->data[i] = _gst_intern_string (args->v_list.name);
+            nameOOP = _gst_intern_string (args->v_list.name);
+            ARRAY_AT (variablesOOP, i + 1) = nameOOP;
             i += 1;
           }
 
@@ -1116,7 +1119,7 @@ compile_block (tree_node blockExpr)
   OOP litOOP, blockOOP;
   gst_compiled_block block;
   mst_Boolean isClean;
-  gst_object object;
+  OOP nameOOP;
   inc_ptr incPtr;
   tree_node args;
 
@@ -1155,16 +1158,18 @@ compile_block (tree_node blockExpr)
 			 blockByteCodes, stack_depth);
   INC_ADD_OOP (blockOOP);
 
-  object = new_instance_with (_gst_array_class, argCount + tempCount, &variablesOOP);
+  new_instance_with (_gst_array_class, argCount + tempCount, &variablesOOP);
   INC_ADD_OOP (variablesOOP);
 
   for (i = 0, args = blockExpr->v_block.arguments; args != NULL; args = args->v_list.next) {
-    object->data[i] = _gst_intern_string (args->v_list.name);
+    nameOOP = _gst_intern_string (args->v_list.name);
+    ARRAY_AT (variablesOOP, i + 1) = nameOOP;
     i += 1;
   }
 
   for (args = blockExpr->v_block.temporaries; args != NULL; args = args->v_list.next) {
-    object->data[i] = _gst_intern_string (args->v_list.name);
+    nameOOP = _gst_intern_string (args->v_list.name);
+    ARRAY_AT (variablesOOP, i + 1) = nameOOP;
     i += 1;
   }
 
@@ -2222,11 +2227,13 @@ _gst_make_constant_oop (tree_node constExpr)
 	tree_node varNode = constExpr->v_const.val.aVal;
 
         incPtr = INC_SAVE_POINTER ();
-        dvb = (gst_deferred_variable_binding)
-	  instantiate (_gst_deferred_variable_binding_class, &resultOOP);
+        instantiate (_gst_deferred_variable_binding_class, &resultOOP);
         INC_ADD_OOP (resultOOP);
 
-	dvb->key = _gst_intern_string (varNode->v_list.name);
+	/* Interning a symbol can move the objects allocated here.  */
+	elementOOP = _gst_intern_string (varNode->v_list.name);
+	dvb = (gst_deferred_variable_binding) OOP_TO_OBJ (resultOOP);
+	dvb->key = elementOOP;
 	dvb->class = _gst_current_parser->currentClass;
 	dvb->defaultDictionary = _gst_get_undeclared_dictionary ();
 	dvb->association = _gst_nil_oop;
@@ -2236,12 +2243,15 @@ _gst_make_constant_oop (tree_node constExpr)
 	  {
 	    int i, size = _gst_list_length (varNode);
 	    OOP arrayOOP;
-	    gst_object array =
-	      instantiate_with (_gst_array_class, size, &arrayOOP);
 
+	    instantiate_with (_gst_array_class, size, &arrayOOP);
+	    dvb = (gst_deferred_variable_binding) OOP_TO_OBJ (resultOOP);
 	    dvb->path = arrayOOP;
 	    for (i = 0; i < size; i++, varNode = varNode->v_list.next)
-	      array->data[i] = _gst_intern_string (varNode->v_list.name);
+	      {
+		elementOOP = _gst_intern_string (varNode->v_list.name);
+		ARRAY_AT (arrayOOP, i + 1) = elementOOP;
+	      }
 	  }
 
         INC_RESTORE_POINTER (incPtr);
diff --git a/libgst/input.c b/libgst/input.c
index 4e61266..e329daa 100644
--- a/libgst/input.c
+++ b/libgst/input.c
@@ -501,7 +501,7 @@ _gst_get_source_string (off_t startPos, off_t endPos)
   /* FIXME: check isPipe too? */
   if (startPos != -1 && !_gst_get_cur_stream_prompt ())
     {
-      OOP fileOOP;
+      OOP fileOOP, startPosOOP, lengthOOP;
       gst_file_segment fileSegment;
       inc_ptr incPtr;
 
@@ -511,13 +511,16 @@ _gst_get_source_string (off_t startPos, off_t endPos)
       if (!IS_NIL (fileOOP))
 	{
           INC_ADD_OOP (fileOOP);
+          startPosOOP = from_c_int_64 (startPos);
+          INC_ADD_OOP (startPosOOP);
+          lengthOOP = from_c_int_64 (endPos - startPos);
+          INC_ADD_OOP (lengthOOP);
           fileSegment = (gst_file_segment) new_instance (_gst_file_segment_class,
                                                          &result);
 
-          INC_ADD_OOP (result);
           fileSegment->fileOOP = fileOOP;
-          fileSegment->startPos = from_c_int_64 (startPos);
-          fileSegment->length = from_c_int_64 (endPos - startPos);
+          fileSegment->startPos = startPosOOP;
+          fileSegment->length = lengthOOP;
 
           assert (to_c_int_64 (fileSegment->length) >= 0);
           INC_RESTORE_POINTER (incPtr);
-- 
2.43.0


From 5e81a0050af2ff58acd81e3d3ae826e6f73b02e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:05 +0000
Subject: [PATCH 87/96] fix: keep the GIInfoType constants inside the method
 definitions of GIBaseInfo

---
 packages/gir/GIR.st | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/gir/GIR.st b/packages/gir/GIR.st
index bfa3391..3649a67 100644
--- a/packages/gir/GIR.st
+++ b/packages/gir/GIR.st
@@ -964,7 +964,7 @@ dump: arg error: error
 !GIBaseInfo class methodsFor: 'GIInfoType'!
 typeTagToString: anInteger
     <cCall: 'g_info_type_to_string' returning: #string
-	args: #( #int )>! !
+	args: #( #int )>!
 
 giInfoTypeInvalid ^0!
 giInfoTypeFunction ^1!
-- 
2.43.0


From 2eb4854399f033f6d51508193b10b3c0192e4c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:05 +0000
Subject: [PATCH 88/96] fix: timesTwoPower: with a large argument answered the
 receiver or used its low 32 bits

---
 kernel/FloatD.st | 2 +-
 kernel/FloatE.st | 2 +-
 kernel/FloatQ.st | 2 +-
 libgst/prims.def | 6 +++---
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kernel/FloatD.st b/kernel/FloatD.st
index 181d422..1e20d8b 100644
--- a/kernel/FloatD.st
+++ b/kernel/FloatD.st
@@ -329,7 +329,7 @@ accuracy as C''s "double" numbers.'>
 
 	<category: 'built ins'>
 	<primitive: VMpr_FloatD_timesTwoPower>
-	
+	^SystemExceptions.WrongClass signalOn: arg mustBe: SmallInteger
     ]
 ]
 
diff --git a/kernel/FloatE.st b/kernel/FloatE.st
index 74e894c..40b7d77 100644
--- a/kernel/FloatE.st
+++ b/kernel/FloatE.st
@@ -355,7 +355,7 @@ accuracy as C''s "float" numbers.'>
 
 	<category: 'built ins'>
 	<primitive: VMpr_FloatE_timesTwoPower>
-	
+	^SystemExceptions.WrongClass signalOn: arg mustBe: SmallInteger
     ]
 ]
 
diff --git a/kernel/FloatQ.st b/kernel/FloatQ.st
index 1d2df55..059d0f1 100644
--- a/kernel/FloatQ.st
+++ b/kernel/FloatQ.st
@@ -337,7 +337,7 @@ accuracy as C''s "long double" numbers.'>
 
 	<category: 'built ins'>
 	<primitive: VMpr_FloatQ_timesTwoPower>
-	
+	^SystemExceptions.WrongClass signalOn: arg mustBe: SmallInteger
     ]
 ]
 
diff --git a/libgst/prims.def b/libgst/prims.def
index 1f138ac..3352576 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -1619,7 +1619,7 @@ primitive VMpr_FloatD_timesTwoPower [succeed,fail]
       intptr_t iarg2;
       farg1 = FLOATD_OOP_VALUE (oop1);
       iarg2 = TO_INT (oop2);
-      PUSH_OOP (floatd_new (ldexp (farg1, iarg2)));
+      PUSH_OOP (floatd_new (ldexp (farg1, MAX (INT_MIN, MIN (INT_MAX, iarg2)))));
       PRIM_SUCCEEDED;
     }
   UNPOP (2);
@@ -1815,7 +1815,7 @@ primitive VMpr_FloatE_timesTwoPower [succeed,fail]
       intptr_t iarg2;
       farg1 = FLOATE_OOP_VALUE (oop1);
       iarg2 = TO_INT (oop2);
-      PUSH_OOP (floate_new (ldexp (farg1, iarg2)));
+      PUSH_OOP (floate_new (ldexp (farg1, MAX (INT_MIN, MIN (INT_MAX, iarg2)))));
       PRIM_SUCCEEDED;
     }
   UNPOP (2);
@@ -2011,7 +2011,7 @@ primitive VMpr_FloatQ_timesTwoPower [succeed,fail]
       intptr_t iarg2;
       farg1 = FLOATQ_OOP_VALUE (oop1);
       iarg2 = TO_INT (oop2);
-      PUSH_OOP (floatq_new (ldexpl (farg1, iarg2)));
+      PUSH_OOP (floatq_new (ldexpl (farg1, MAX (INT_MIN, MIN (INT_MAX, iarg2)))));
       PRIM_SUCCEEDED;
     }
   UNPOP (2);
-- 
2.43.0


From 8368e0f7e8190040ccc7332b1fdbad8cbac4eb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:05 +0000
Subject: [PATCH 89/96] fix: report the failure of tan, arcTan, methodsFor: and
 of creating a compiled method

---
 kernel/Builtins.st    | 1 +
 kernel/CompildMeth.st | 3 ++-
 kernel/Float.st       | 4 ++--
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/kernel/Builtins.st b/kernel/Builtins.st
index 4e1dfa3..a4cc473 100644
--- a/kernel/Builtins.st
+++ b/kernel/Builtins.st
@@ -39,6 +39,7 @@ Behavior extend [
          The methods are put in the category identified by the parameter."
         <category: 'parsing'>
         <primitive: VMpr_Behavior_methodsFor>
+        self primitiveFailed
     ]
 ]
 
diff --git a/kernel/CompildMeth.st b/kernel/CompildMeth.st
index b7ddb70..501413f 100644
--- a/kernel/CompildMeth.st
+++ b/kernel/CompildMeth.st
@@ -68,7 +68,8 @@ instances.'>
 			    and: [each arguments first strictlyPositive]) 
 				ifFalse: 
 				    [SystemExceptions.VerificationError signal: 'invalid primitive declaration'].
-			true]]
+			true]].
+	^self primitiveFailed
     ]
 
     CompiledMethod class >> numArgs: args [
diff --git a/kernel/Float.st b/kernel/Float.st
index 3714f08..8f06c1c 100644
--- a/kernel/Float.st
+++ b/kernel/Float.st
@@ -708,7 +708,7 @@ if the hardware supports it.'>
 
 	<category: 'built ins'>
 	<primitive: VMpr_Float_tan>
-	
+	self primitiveFailed
     ]
 
     arcSin [
@@ -732,7 +732,7 @@ if the hardware supports it.'>
 
 	<category: 'built ins'>
 	<primitive: VMpr_Float_arcTan>
-	
+	self primitiveFailed
     ]
 
     successor [
-- 
2.43.0


From a2d8acf8e18259942fa8cbc8f6233b4073280bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:52 +0000
Subject: [PATCH 90/96] fix: report the failure of performMethod: to proxies of
 Glorp

---
 packages/glorp/GlorpPort.st | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/glorp/GlorpPort.st b/packages/glorp/GlorpPort.st
index da62753..b8cf5c1 100644
--- a/packages/glorp/GlorpPort.st
+++ b/packages/glorp/GlorpPort.st
@@ -49,7 +49,7 @@ This class is part of the GLORP system (see http://www.glorp.org), licensed unde
 
 	<category: 'fundamental primitives'>
 	<primitive: VMPrimitives.VMpr_Object_performWithArguments>
-	
+	^SystemExceptions.PrimitiveFailed signal
     ]
 
     performMethod: method with: arg1 [
@@ -59,7 +59,7 @@ This class is part of the GLORP system (see http://www.glorp.org), licensed unde
 
 	<category: 'fundamental primitives'>
 	<primitive: VMPrimitives.VMpr_Object_perform>
-	
+	^SystemExceptions.PrimitiveFailed signal
     ]
 ]
 
-- 
2.43.0


From eee79c3bad7d83ab4cc214e7ae0444c2e71d816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:10 +0000
Subject: [PATCH 91/96] fix: answer the stored object when storing into sorted,
 weak and run-length collections

---
 kernel/RunArray.st    | 5 +++--
 kernel/SortCollect.st | 2 +-
 kernel/WeakObjects.st | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/kernel/RunArray.st b/kernel/RunArray.st
index 897ab35..d109e8c 100644
--- a/kernel/RunArray.st
+++ b/kernel/RunArray.st
@@ -110,7 +110,7 @@ behave like an ArrayedCollection.'>
 
 	<category: 'adding'>
 	| newMap |
-	aCollection isEmpty ifTrue: [^self].
+	aCollection isEmpty ifTrue: [^aCollection].
 	newMap := aCollection asRunArrayMap.
 	self updateMapIndexFor: anIndex.
 	self splitAt: anIndex decrementBy: 0.
@@ -118,7 +118,8 @@ behave like an ArrayedCollection.'>
 	self
 	    packTwoRuns: mapIndex + newMap size - 1;
 	    packTwoRuns: mapIndex.
-	size := size + aCollection size
+	size := size + aCollection size.
+	^aCollection
     ]
 
     addAllFirst: aCollection [
diff --git a/kernel/SortCollect.st b/kernel/SortCollect.st
index ef8a8bc..2ba1b92 100644
--- a/kernel/SortCollect.st
+++ b/kernel/SortCollect.st
@@ -153,7 +153,7 @@ above criteria -- actually any object which responds to #value:value:.'>
 
         <category: 'accessing'>
         self beConsistent.
-	super at: anIndex put: anObject
+	^super at: anIndex put: anObject
     ]
 
     removeFirst [
diff --git a/kernel/WeakObjects.st b/kernel/WeakObjects.st
index 386c56a..52af2a7 100644
--- a/kernel/WeakObjects.st
+++ b/kernel/WeakObjects.st
@@ -358,7 +358,8 @@ for the garbage collected keys'>
 			    value: assoc value
 			    environment: self].
 	assoc makeEphemeron.
-	^super add: assoc
+	super add: assoc.
+	^anAssociation
     ]
 
     at: key put: value [
-- 
2.43.0


From f690e716c98b3e09f016b431587c2000daeebc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:01 +0000
Subject: [PATCH 92/96] fix: equal delays, intervals, times and method
 descriptors have equal hashes

---
 kernel/AnsiDates.st  | 4 +++-
 kernel/Delay.st      | 7 +++++--
 kernel/Interval.st   | 4 +++-
 kernel/MethodInfo.st | 2 +-
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/kernel/AnsiDates.st b/kernel/AnsiDates.st
index 9c72cdb..0d583cc 100644
--- a/kernel/AnsiDates.st
+++ b/kernel/AnsiDates.st
@@ -230,7 +230,9 @@ Date subclass: DateTime [
 	"Answer an hash value for the receievr"
 
 	<category: 'testing'>
-	^super hash * 37 + (self seconds - self offset seconds)
+	| utc |
+	utc := self asUTC.
+	^utc days hash * 37 + utc seconds
     ]
 
     + aDuration [
diff --git a/kernel/Delay.st b/kernel/Delay.st
index ceeedfd..b0085a2 100644
--- a/kernel/Delay.st
+++ b/kernel/Delay.st
@@ -204,8 +204,9 @@ created.'>
 
         <category: 'comparing'>
         self class == aDelay class ifFalse: [^false].
+	delayDuration = aDelay basicDelayDuration ifFalse: [^false].
 	^delayDuration isNil
-            ifFalse: [delayDuration = aDelay basicDelayDuration]
+            ifFalse: [true]
 	    ifTrue: [resumptionTime = aDelay resumptionTime]
     ]
 
@@ -213,7 +214,9 @@ created.'>
         "Answer an hash value for the receiver"
 
         <category: 'comparing'>
-        ^resumptionTime hash bitXor: delayDuration hash
+	^delayDuration isNil
+            ifFalse: [delayDuration hash]
+	    ifTrue: [resumptionTime hash]
     ]
 
     notifyChange [
diff --git a/kernel/Interval.st b/kernel/Interval.st
index 0631bb8..fd959ad 100644
--- a/kernel/Interval.st
+++ b/kernel/Interval.st
@@ -191,7 +191,9 @@ members that my instance represents.'>
 	"Answer an hash value for the receiver"
 
 	<category: 'testing'>
-	^(start + stop + stop) * step bitAnd: 1073741823
+	self isEmpty ifTrue: [^0].
+	^(self first hash + self last hash + self last hash) * self increment hash 
+	    bitAnd: 1073741823
     ]
 
     copyFrom: startIndex to: stopIndex [
diff --git a/kernel/MethodInfo.st b/kernel/MethodInfo.st
index 47c7866..5e95cb4 100644
--- a/kernel/MethodInfo.st
+++ b/kernel/MethodInfo.st
@@ -133,7 +133,7 @@ code of the method.'>
 	"Answer an hash value for the receiver"
 
 	<category: 'equality'>
-	^sourceCode hash bitXor: category hash
+	^self sourceString hash bitXor: category hash
     ]
 
     setSourceCode: source [
-- 
2.43.0


From f1720771a9a34c0443966035a6e8bd6468ddf248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:11 +0000
Subject: [PATCH 93/96] fix: copies of bags and large arrays share their
 contents with the original

---
 kernel/Bag.st         |  9 +++++++++
 kernel/OtherArrays.st | 10 ++++++++++
 2 files changed, 19 insertions(+)

diff --git a/kernel/Bag.st b/kernel/Bag.st
index 66a28f6..e8492a2 100644
--- a/kernel/Bag.st
+++ b/kernel/Bag.st
@@ -99,6 +99,15 @@ twice, then I will report that that element has been stored twice.'>
 	^oldObject
     ]
 
+    postCopy [
+	"Copy the dictionary that counts the elements, so that the copy and the
+	 original can be changed independently"
+
+	<category: 'copying'>
+	super postCopy.
+	contents := contents copy
+    ]
+
     sortedByCount [
 	"Answer a collection of counts with elements, sorted by decreasing count."
 
diff --git a/kernel/OtherArrays.st b/kernel/OtherArrays.st
index ee2f718..f0d5f2e 100644
--- a/kernel/OtherArrays.st
+++ b/kernel/OtherArrays.st
@@ -277,6 +277,16 @@ memory when lots of items have the same value.'>
 	^anObject
     ]
 
+    postCopy [
+	"Copy the storage, so that the copy and the original can be changed
+	 independently"
+
+	<category: 'copying'>
+	super postCopy.
+	storage := storage copy.
+	indices := indices deepCopy
+    ]
+
     compress [
 	"Arrange the representation of the array for maximum memory saving."
 
-- 
2.43.0


From 76b0230380398e0a21bbd9350e3585c947484985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:45 +0000
Subject: [PATCH 94/96] fix: pass the receiver to the C functions of GITypeInfo

---
 packages/gir/GIR.st | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/packages/gir/GIR.st b/packages/gir/GIR.st
index 3649a67..10be213 100644
--- a/packages/gir/GIR.st
+++ b/packages/gir/GIR.st
@@ -738,52 +738,52 @@ isForeign
 !GITypeInfo methodsFor: 'C call-outs'!
 isPointer
     <cCall: 'g_type_info_is_pointer' returning: #boolean
-        args: #( #cObject )>! !
+        args: #( #self )>! !
 
 !GITypeInfo methodsFor: 'C call-outs'!
 getTag
     <cCall: 'g_type_info_get_tag' returning: #int
-        args: #( #cObject )>! !
+        args: #( #self )>! !
 
 !GITypeInfo methodsFor: 'C call-outs'!
 getParamType: n
     <cCall: 'g_type_info_get_param_type' returning: #{GITypeInfo}
-        args: #( #cObject #int )>! !
+        args: #( #self #int )>! !
 
 !GITypeInfo methodsFor: 'C call-outs'!
 getInterface
     <cCall: 'g_type_info_get_interface' returning: #{GIBaseInfo}
-        args: #( #cObject )>! !
+        args: #( #self )>! !
 
 !GITypeInfo methodsFor: 'C call-outs'!
 getArrayLength
     <cCall: 'g_type_info_get_array_length' returning: #int
-        args: #( #cObject )>! !
+        args: #( #self )>! !
 
 !GITypeInfo methodsFor: 'C call-outs'!
 getArrayFixedSize
     <cCall: 'g_type_info_get_array_fixed_size' returning: #int
-        args: #( #cObject )>! !
+        args: #( #self )>! !
 
 !GITypeInfo methodsFor: 'C call-outs'!
 isZeroTerminated
     <cCall: 'g_type_info_is_zero_terminated' returning: #boolean
-        args: #( #cObject )>! !
+        args: #( #self )>! !
 
 !GITypeInfo methodsFor: 'C call-outs'!
 getArrayType
     <cCall: 'g_type_info_get_array_type' returning: #int
-        args: #( #cObject )>! !
+        args: #( #self )>! !
 
 !GITypeInfo methodsFor: 'C call-outs'!
 getNErrorDomains
     <cCall: 'g_type_info_get_n_error_domains' returning: #int
-        args: #( #cObject )>! !
+        args: #( #self )>! !
 
 !GITypeInfo methodsFor: 'C call-outs'!
 getErrorDomain: n
     <cCall: 'g_type_info_get_error_domain' returning: #{GIErrorDomainInfo}
-        args: #( #cObject #int )>! !
+        args: #( #self #int )>! !
 
 !GIUnionInfo methodsFor: 'C call-outs'!
 getNFields
-- 
2.43.0


From 032f58c56416bbb810a98d1f5560d26d21ac06c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:33 +0000
Subject: [PATCH 95/96] fix: bitShift: must not use only the lower 32 bits of
 the count

The primitive truncated the count to an int, so that shifting by a
multiple of 2^32 answered the receiver.
---
 libgst/prims.def | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libgst/prims.def b/libgst/prims.def
index 3352576..79fd90d 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -1180,7 +1180,7 @@ primitive VMpr_LargeInteger_bitInvert [uses_gmp]
 primitive VMpr_LargeInteger_bitShift [uses_gmp]
 {
 #ifdef HAVE_GMP
-  int n;
+  intptr_t n;
   gst_mpz a = { 0, 0, NULL };
   gst_mpz c = { 0, 0, NULL };
   OOP oop1, oop2, oop3;
@@ -1188,7 +1188,9 @@ primitive VMpr_LargeInteger_bitShift [uses_gmp]
   _gst_primitives_executed++;
   oop2 = POP_OOP ();
   oop1 = POP_OOP ();
-  if COMMON (IS_INT (oop2))
+  /* Shifts that do not fit in an int are left to the Smalltalk code.  */
+  if COMMON (IS_INT (oop2)
+      && TO_INT (oop2) <= INT_MAX && TO_INT (oop2) >= -INT_MAX)
     n = TO_INT (oop2);
   else
     {
-- 
2.43.0


From f21fe376421fa676e1fd881abaedd5e8b0f9f8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:09 +0000
Subject: [PATCH 96/96] fix: report methods and blocks whose header fields
 would overflow

A method with more than 63 temporaries, or a block with more than 31 (or
with too many arguments, or too deeply nested expressions) got a header
with only the lower bits of the number, and aborted the virtual machine
in the bytecode verifier.  Report an error instead.
---
 libgst/comp.c    | 34 ++++++++++++++++++++++++++++++++++
 libgst/prims.def |  3 +++
 2 files changed, 37 insertions(+)

diff --git a/libgst/comp.c b/libgst/comp.c
index c7f13d3..b32d532 100644
--- a/libgst/comp.c
+++ b/libgst/comp.c
@@ -1156,6 +1156,13 @@ compile_block (tree_node blockExpr)
   incPtr = INC_SAVE_POINTER ();
   blockOOP = make_block (_gst_get_arg_count (), _gst_get_temp_count (),
 			 blockByteCodes, stack_depth);
+  if (!blockOOP)
+    {
+      _gst_errorf_at (blockExpr->location.first_line,
+		      "too many arguments, temporary variables "
+		      "or nested expressions in a block");
+      EXIT_COMPILATION ();
+    }
   INC_ADD_OOP (blockOOP);
 
   new_instance_with (_gst_array_class, argCount + tempCount, &variablesOOP);
@@ -2629,6 +2636,25 @@ _gst_make_new_method (int numArgs,
         record_attribute (messageOOP);
     }
 
+  /* The header has room for a limited number of arguments, temporaries
+     and stack slots.  */
+  if (numArgs < 0 || numArgs > MAX_NUM_ARGS)
+    {
+      _gst_errorf ("too many arguments");
+      goto fail;
+    }
+  if (numTemps < 0 || numTemps > MAX_NUM_TEMPS)
+    {
+      _gst_errorf ("too many temporary variables");
+      goto fail;
+    }
+  if (maximumStackDepth < 0
+      || maximumStackDepth > MAX_DEPTH - (1 << DEPTH_SCALE) - numArgs - numTemps)
+    {
+      _gst_errorf ("expression too deeply nested");
+      goto fail;
+    }
+
   maximumStackDepth += numArgs + numTemps;
   memset (&header, 0, sizeof (method_header));
 
@@ -2792,6 +2818,14 @@ _gst_block_new (int numArgs,
   gst_compiled_block block;
   block_header header;
 
+  /* The header has room for a limited number of arguments, temporaries
+     and stack slots.  */
+  if (numArgs < 0 || numArgs >= 1 << BLK_ARGS_BITS
+      || numTemps < 0 || numTemps >= 1 << BLK_TEMPS_BITS
+      || maximumStackDepth < 0
+      || maximumStackDepth > MAX_DEPTH - (1 << DEPTH_SCALE) - numArgs - numTemps)
+    return (NULL);
+
   maximumStackDepth += numArgs + numTemps;
   maximumStackDepth += (1 << DEPTH_SCALE) - 1;	/* round */
   maximumStackDepth >>= DEPTH_SCALE;
diff --git a/libgst/prims.def b/libgst/prims.def
index 79fd90d..81befdf 100644
--- a/libgst/prims.def
+++ b/libgst/prims.def
@@ -2239,6 +2239,9 @@ primitive VMpr_CompiledBlock_create [succeed,fail]
 			  TO_INT (depthOOP), _gst_literals);
 
   _gst_free_bytecodes (bytecodes);
+  if (!block)
+    PRIM_FAILED;
+
   POP_N_OOPS (5);
   OOP_CLASS(block) = STACKTOP ();
 
-- 
2.43.0

