From a97ee011047485b39ce66b3fc076ac34f4d0ac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 01/70] fix: Java choices and unions with a bytes field compare
 its content in equals()

---
 compiler/extensions/java/freemarker/Choice.java.ftl | 5 +----
 compiler/extensions/java/freemarker/Union.java.ftl  | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/compiler/extensions/java/freemarker/Choice.java.ftl b/compiler/extensions/java/freemarker/Choice.java.ftl
index 0529c9d..779ac48 100644
--- a/compiler/extensions/java/freemarker/Choice.java.ftl
+++ b/compiler/extensions/java/freemarker/Choice.java.ftl
@@ -368,10 +368,7 @@ ${I}break;
                     <@compound_compare_parameter parameter/><#if parameter?has_next || fieldList?has_content> &&<#else>;</#if>
     </#list>
     <#if fieldList?has_content>
-                    (
-                        (objectChoice == null && that.objectChoice == null) ||
-                        (objectChoice != null && objectChoice.equals(that.objectChoice))
-                    );
+                    java.util.Objects.deepEquals(objectChoice, that.objectChoice);
     </#if>
         }
 
diff --git a/compiler/extensions/java/freemarker/Union.java.ftl b/compiler/extensions/java/freemarker/Union.java.ftl
index f22e86f..b57638a 100644
--- a/compiler/extensions/java/freemarker/Union.java.ftl
+++ b/compiler/extensions/java/freemarker/Union.java.ftl
@@ -280,10 +280,7 @@ public class ${name} implements <#rt>
     </#list>
     <#if fieldList?has_content>
                     choiceTag == that.choiceTag &&
-                    (
-                        (objectChoice == null && that.objectChoice == null) ||
-                        (objectChoice != null && objectChoice.equals(that.objectChoice))
-                    );
+                    java.util.Objects.deepEquals(objectChoice, that.objectChoice);
     </#if>
         }
 
-- 
2.43.0


From 528156a52ee439c283d28b5d0312c8305476298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 02/70] fix: Java generator supports subtypes of instantiated
 templates

---
 .../zserio/extension/java/JavaNativeMapper.java    | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/compiler/extensions/java/src/zserio/extension/java/JavaNativeMapper.java b/compiler/extensions/java/src/zserio/extension/java/JavaNativeMapper.java
index 09efb7f..b0c94e8 100644
--- a/compiler/extensions/java/src/zserio/extension/java/JavaNativeMapper.java
+++ b/compiler/extensions/java/src/zserio/extension/java/JavaNativeMapper.java
@@ -13,6 +13,7 @@ import zserio.ast.EnumType;
 import zserio.ast.ExternType;
 import zserio.ast.FixedBitFieldType;
 import zserio.ast.FloatType;
+import zserio.ast.InstantiateType;
 import zserio.ast.PackageName;
 import zserio.ast.PackageSymbol;
 import zserio.ast.PubsubType;
@@ -346,6 +347,19 @@ final class JavaNativeMapper
             }
         }
 
+        @Override
+        public void visitInstantiateType(InstantiateType type)
+        {
+            try
+            {
+                javaTypes = JavaNativeMapper.this.getJavaTypes(type.getTypeReference());
+            }
+            catch (ZserioExtensionException exception)
+            {
+                thrownException = exception;
+            }
+        }
+
         @Override
         public void visitEnumType(EnumType type)
         {
-- 
2.43.0


From 123d352eaf1e0e1d60bd0407e3bdc632d2b26fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 03/70] fix: Java choices where a single case covers all
 selector values compile

---
 compiler/extensions/java/freemarker/Choice.java.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/java/freemarker/Choice.java.ftl b/compiler/extensions/java/freemarker/Choice.java.ftl
index 779ac48..969f9fa 100644
--- a/compiler/extensions/java/freemarker/Choice.java.ftl
+++ b/compiler/extensions/java/freemarker/Choice.java.ftl
@@ -67,7 +67,7 @@ ${I}final java.math.BigInteger selector = ${selectorExpression};
         <#list caseMemberList as caseMember>
             <#if caseMember?has_next || !isDefaultUnreachable>
 ${I}<#if caseMember_index != 0>else </#if>if (<@choice_selector_condition caseMember.caseList/>)
-            <#else>
+            <#elseif caseMember_index != 0>
 ${I}else
             </#if>
 ${I}{
-- 
2.43.0


From 197d0d1fa31d2c9c024849da989b468fc5ce0ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 04/70] fix: C++ choices where a single case covers all
 selector values compile

---
 compiler/extensions/cpp/freemarker/Choice.cpp.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/freemarker/Choice.cpp.ftl b/compiler/extensions/cpp/freemarker/Choice.cpp.ftl
index 789f1fa..a97d8ae 100644
--- a/compiler/extensions/cpp/freemarker/Choice.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/Choice.cpp.ftl
@@ -119,7 +119,7 @@ ${I}const auto selector = ${selectorExpression};
         <#list caseMemberList as caseMember>
             <#if caseMember?has_next || !isDefaultUnreachable>
 ${I}<#if caseMember?index != 0>else </#if>if (<@choice_selector_condition caseMember.expressionList/>)
-            <#else>
+            <#elseif caseMember?index != 0>
 ${I}else
             </#if>
 ${I}{
-- 
2.43.0


From 3ae7ce686a767f040a08722bd4b6853e396850e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 05/70] fix: Python choices where a single case covers all
 selector values are valid code

---
 compiler/extensions/python/freemarker/Choice.py.ftl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/extensions/python/freemarker/Choice.py.ftl b/compiler/extensions/python/freemarker/Choice.py.ftl
index 310293e..30a0906 100644
--- a/compiler/extensions/python/freemarker/Choice.py.ftl
+++ b/compiler/extensions/python/freemarker/Choice.py.ftl
@@ -27,6 +27,8 @@ ${I}raise zserio.PythonRuntimeException("No match in choice ${name}!")
     <#list caseMemberList as caseMember>
         <#if caseMember?has_next || !isDefaultUnreachable>
         <#if caseMember?is_first>if <#else>elif </#if><@choice_selector_condition caseMember.expressionList/>:
+        <#elseif caseMember?is_first>
+        if True:
         <#else>
         else:
         </#if>
-- 
2.43.0


From c16be087388d480e574ad93a8e6f81f0d41b80a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 06/70] fix: Python choices initialize their state when an
 empty case is read

---
 compiler/extensions/python/freemarker/Choice.py.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/python/freemarker/Choice.py.ftl b/compiler/extensions/python/freemarker/Choice.py.ftl
index 30a0906..2dea211 100644
--- a/compiler/extensions/python/freemarker/Choice.py.ftl
+++ b/compiler/extensions/python/freemarker/Choice.py.ftl
@@ -511,7 +511,7 @@ ${I}pass
         <@compound_read_field member.compoundField, name, indent, packed/>
     <#else>
         <#local I>${""?left_pad(indent * 4)}</#local>
-${I}pass
+${I}self._choice = None
     </#if>
 </#macro>
     def read(self, zserio_reader: zserio.BitStreamReader) -> None:
-- 
2.43.0


From b99cd32beb3ebcb7537ff12a1618037acd5b1a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 07/70] fix: Java equals() of structures with unset optional
 enum field

---
 compiler/extensions/java/freemarker/CompoundField.inc.ftl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index 691520c..ce23657 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -320,8 +320,8 @@ java.lang.Double.doubleToLongBits(<@compound_get_field field/>) == java.lang.Dou
     <#elseif field.typeInfo.isBytes>
 ((<@compound_get_field field/> == null) ? that.<@compound_get_field field/> == null : java.util.Arrays.equals(<@compound_get_field field/>, that.<@compound_get_field field/>))<#rt>
     <#elseif field.typeInfo.isEnum>
-        <#-- enum type: compare by getValue() and == -->
-((<@compound_get_field field/> == null) ? that.<@compound_get_field field/> == null : <@compound_get_field field/>.getValue() == that.<@compound_get_field field/>.getValue())<#rt>
+        <#-- enum type: enum items are singletons, compare references by == (this is null safe) -->
+<@compound_get_field field/> == that.<@compound_get_field field/><#rt>
     <#else>
         <#-- complex type: compare by equals() but check for possible null -->
 ((<@compound_get_field field/> == null) ? that.<@compound_get_field field/> == null : <@compound_get_field field/>.equals(that.<@compound_get_field field/>))<#rt>
-- 
2.43.0


From b82c99b81ae1e0a2c63db96632ecab48104d1429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:07 +0000
Subject: [PATCH 08/70] fix: Java decoding of an absent optional field with
 default value

---
 compiler/extensions/java/freemarker/CompoundField.inc.ftl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index ce23657..201438b 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -127,6 +127,10 @@ ${I}if (in.readBool())
         </#if>
 ${I}{
         <@compound_read_field_inner field, compoundName, indent + 1, packed/>
+${I}}
+${I}else
+${I}{
+${I}    <@field_member_name field/> = null;
 ${I}}
     <#else>
         <@compound_read_field_inner field, compoundName, indent, packed/>
-- 
2.43.0


From 741057a9afb8981029f7f3ad3fd685cb8588a521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:44 +0000
Subject: [PATCH 09/70] fix: Python module of a subtype of extern imports
 zserio runtime

---
 .../zserio/extension/python/SubtypeEmitterTemplateData.java    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/extensions/python/src/zserio/extension/python/SubtypeEmitterTemplateData.java b/compiler/extensions/python/src/zserio/extension/python/SubtypeEmitterTemplateData.java
index 6bff0f0..82a1f5f 100644
--- a/compiler/extensions/python/src/zserio/extension/python/SubtypeEmitterTemplateData.java
+++ b/compiler/extensions/python/src/zserio/extension/python/SubtypeEmitterTemplateData.java
@@ -2,6 +2,7 @@ package zserio.extension.python;
 
 import zserio.ast.Subtype;
 import zserio.extension.common.ZserioExtensionException;
+import zserio.extension.python.types.NativeBitBufferType;
 import zserio.extension.python.types.PythonNativeType;
 
 /**
@@ -17,6 +18,8 @@ public final class SubtypeEmitterTemplateData extends UserTypeTemplateData
         final PythonNativeMapper pythonNativeMapper = context.getPythonNativeMapper();
         final PythonNativeType nativeTargetType = pythonNativeMapper.getPythonType(subtype.getTypeReference());
         importType(nativeTargetType);
+        if (nativeTargetType instanceof NativeBitBufferType)
+            importPackage("zserio"); // extern type is the only builtin type which comes from the zserio runtime
         targetTypeName = PythonFullNameFormatter.getFullName(nativeTargetType);
     }
 
-- 
2.43.0


From 2b55fa5d6f6fb4f1023169a8ba1a207ed7e96a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:10 +0000
Subject: [PATCH 10/70] fix: C++ copying of objects with absent extended choice
 fields

---
 .../extensions/cpp/freemarker/CompoundField.inc.ftl    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/cpp/freemarker/CompoundField.inc.ftl b/compiler/extensions/cpp/freemarker/CompoundField.inc.ftl
index cf6ebd3..1a07898 100644
--- a/compiler/extensions/cpp/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/cpp/freemarker/CompoundField.inc.ftl
@@ -989,8 +989,14 @@ ${I}<@field_member_name field/>(::zserio::allocatorPropagatingCopy(<#rt>
         </#if>
     </#if>
     <#if initializeCommand??>
-        <#if field.optional??>
-${I}if (<@field_optional_condition field/>)
+        <#if field.isExtended>
+            <#local initializeCondition>${field.isPresentIndicatorName}()<#if field.optional??><#rt>
+                    <#lt> && (<@field_optional_condition field/>)</#if></#local>
+        <#elseif field.optional??>
+            <#local initializeCondition><@field_optional_condition field/></#local>
+        </#if>
+        <#if initializeCondition??>
+${I}if (${initializeCondition})
 ${I}{
 ${I}    ${initializeCommand}
 ${I}}
-- 
2.43.0


From 052d474b66d4da252e287bc67b0815e90296d74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 11/70] fix: alignment larger than 64 bits in C++ and Java
 runtimes

---
 .../extensions/cpp/runtime/src/zserio/BitStreamReader.cpp | 8 ++++++--
 .../extensions/cpp/runtime/src/zserio/BitStreamWriter.cpp | 8 ++++++--
 .../src/zserio/runtime/io/ByteArrayBitStreamWriter.java   | 4 +++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp b/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
index c4448df..2f2b260 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
@@ -865,8 +865,12 @@ void BitStreamReader::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        (void)readBits64(skip);
+        BitPosType skip = alignment - offset;
+        for (; skip > 64; skip -= 64)
+        {
+            (void)readBits64(64);
+        }
+        (void)readBits64(static_cast<uint8_t>(skip));
     }
 }
 
diff --git a/compiler/extensions/cpp/runtime/src/zserio/BitStreamWriter.cpp b/compiler/extensions/cpp/runtime/src/zserio/BitStreamWriter.cpp
index 9c73888..b32582a 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BitStreamWriter.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/BitStreamWriter.cpp
@@ -538,8 +538,12 @@ void BitStreamWriter::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        writeBits64(0, skip);
+        BitPosType skip = alignment - offset;
+        for (; skip > 64; skip -= 64)
+        {
+            writeBits64(0, 64);
+        }
+        writeBits64(0, static_cast<uint8_t>(skip));
     }
 }
 
diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java
index d6433ae..b5ff567 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamWriter.java
@@ -469,7 +469,9 @@ public final class ByteArrayBitStreamWriter extends ByteArrayBitStreamBase imple
         final long offset = getBitPosition() % alignVal;
         if (offset != 0)
         {
-            final int skip = (int)(alignVal - offset);
+            int skip = (int)(alignVal - offset);
+            for (; skip > 63; skip -= 63)
+                skipBits(63);
             skipBits(skip);
         }
     }
-- 
2.43.0


From 0b1f76870273b6267f4e020e5496cfee861e60b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 12/70] fix: Java check of BigInteger and bitmask parameters
 compares values

---
 compiler/extensions/java/freemarker/CompoundField.inc.ftl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index 201438b..ab18efb 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -298,6 +298,13 @@ ${I}if (${parameterValue} != ${instantiatedValue})
 ${I}{
 ${I}    throw new zserio.runtime.ZserioError("Write: Wrong parameter ${parameter.name} for field ${compoundName}.${field.name}: " +
 ${I}            ${parameterValue} + " != " + ${instantiatedValue} + "!");
+${I}}
+            <#elseif instantiatedParameter.typeInfo.requiresBigInt || instantiatedParameter.typeInfo.isBitmask>
+                <#-- value types: different objects may hold the same value -->
+${I}if (!<@compound_get_field field/>.${parameter.getterName}().equals(${instantiatedParameter.expression}))
+${I}{
+${I}    throw new zserio.runtime.ZserioError("Write: Wrong parameter ${parameter.name} for field ${compoundName}.${field.name}: " +
+${I}            <@compound_get_field field/>.${parameter.getterName}() + " != " + (${instantiatedParameter.expression}) + "!");
 ${I}}
             <#else>
 ${I}if (<@compound_get_field field/>.${parameter.getterName}() != (${instantiatedParameter.expression}))
-- 
2.43.0


From 58f68eb17ec50b1d9531ef2a89b1e3c4bf81cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 13/70] fix: Java choice cases of a wider type than the
 selector

---
 .../java/freemarker/Choice.java.ftl           |  4 +--
 .../java/ChoiceEmitterTemplateData.java       | 34 +++++++++++++++----
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/compiler/extensions/java/freemarker/Choice.java.ftl b/compiler/extensions/java/freemarker/Choice.java.ftl
index 969f9fa..91d05e6 100644
--- a/compiler/extensions/java/freemarker/Choice.java.ftl
+++ b/compiler/extensions/java/freemarker/Choice.java.ftl
@@ -11,7 +11,7 @@
         <#list caseList as case>
             <#if case_index != 0>
  ||
-                 </#if>selector.compareTo(new java.math.BigInteger("${case.expressionForIf}")) == 0<#rt>
+                 </#if>selector.compareTo(new java.math.BigInteger("${case.integerValue}")) == 0<#rt>
         </#list>
     <#elseif selectorExpressionBitmaskTypeName??>
         <#list caseList as case>
@@ -27,7 +27,7 @@ selector == (${case.expressionForIf})<#if case?has_next> || </#if><#rt>
 </#macro>
 <#macro choice_no_match name indent>
     <#local I>${""?left_pad(indent * 4)}</#local>
-${I}throw new zserio.runtime.ZserioError("No match in choice ${name}: " + ${selectorExpression} + "!");
+${I}throw new zserio.runtime.ZserioError("No match in choice ${name}: " + (${selectorExpression}) + "!");
 </#macro>
 <#assign isSwitchAllowed = !isSelectorExpressionBoolean && !isSelectorExpressionBigInteger &&
         !isSelectorExpressionLong && !selectorExpressionBitmaskTypeName??>
diff --git a/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java b/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
index 6fd06b3..0f30d88 100644
--- a/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
+++ b/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
@@ -31,10 +31,13 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
         final Expression expression = choiceType.getSelectorExpression();
         selectorExpression = javaExpressionFormatter.formatGetter(expression);
         isSelectorExpressionBoolean = expression.getExprType() == Expression.ExpressionType.BOOLEAN;
+        final BigInteger selectorLowerBound = expression.getIntegerLowerBound();
         final BigInteger selectorUpperBound = expression.getIntegerUpperBound();
         isSelectorExpressionBigInteger = expression.needsBigInteger();
-        isSelectorExpressionLong = (isSelectorExpressionBigInteger == false && selectorUpperBound != null &&
-                selectorUpperBound.compareTo(BigInteger.valueOf(Integer.MAX_VALUE)) > 0);
+        isSelectorExpressionLong = (isSelectorExpressionBigInteger == false && selectorLowerBound != null &&
+                selectorUpperBound != null &&
+                (selectorLowerBound.compareTo(BigInteger.valueOf(Integer.MIN_VALUE)) < 0 ||
+                        selectorUpperBound.compareTo(BigInteger.valueOf(Integer.MAX_VALUE)) > 0));
         selectorExpressionBitmaskTypeName = createSelectorExpressionBitmaskType(expression, javaNativeMapper);
 
         caseMemberList = new ArrayList<CaseMember>();
@@ -125,11 +128,22 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
             public Case(TemplateDataContext context, Expression choiceExpression)
                     throws ZserioExtensionException
             {
-                final ExpressionFormatter javaExpressionFormatter = context.getJavaExpressionFormatter();
-                final ExpressionFormatter javaCaseExpressionFormatter =
-                        context.getJavaCaseExpressionFormatter();
-                expressionForIf = javaExpressionFormatter.formatGetter(choiceExpression);
-                expressionForCase = javaCaseExpressionFormatter.formatGetter(choiceExpression);
+                if (choiceExpression.getExprType() == Expression.ExpressionType.INTEGER)
+                {
+                    // value is used because native type of the case can differ from the type of the selector
+                    integerValue = choiceExpression.getIntegerValue().toString();
+                    expressionForIf = integerValue + "L";
+                    expressionForCase = integerValue;
+                }
+                else
+                {
+                    final ExpressionFormatter javaExpressionFormatter = context.getJavaExpressionFormatter();
+                    final ExpressionFormatter javaCaseExpressionFormatter =
+                            context.getJavaCaseExpressionFormatter();
+                    integerValue = null;
+                    expressionForIf = javaExpressionFormatter.formatGetter(choiceExpression);
+                    expressionForCase = javaCaseExpressionFormatter.formatGetter(choiceExpression);
+                }
             }
 
             public String getExpressionForIf()
@@ -142,8 +156,14 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
                 return expressionForCase;
             }
 
+            public String getIntegerValue()
+            {
+                return integerValue;
+            }
+
             public final String expressionForIf;
             public final String expressionForCase;
+            public final String integerValue;
         }
 
         private final List<Case> caseList;
-- 
2.43.0


From afed95c07b2fdf5ef8bb2d7280584b49491d5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 14/70] fix: C++ reader rejects all 5 bytes varsize values
 which are out of range

---
 .../cpp/runtime/src/zserio/BitStreamReader.cpp           | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp b/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
index 2f2b260..93e8ce4 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
@@ -804,14 +804,15 @@ uint32_t BitStreamReader::readVarSize()
         return result;
     }
 
-    result = result << 8U | static_cast<uint8_t>(readBitsImpl(m_context, 8)); // byte 5
-    if (result > VARSIZE_MAX_VALUE)
+    // 5 bytes hold up to 36 bits which do not fit to the result
+    const uint64_t value = static_cast<uint64_t>(result) << 8U | static_cast<uint8_t>(readBitsImpl(m_context, 8));
+    if (value > VARSIZE_MAX_VALUE)
     {
         throw CppRuntimeException("BitStreamReader: Read value '")
-                << result << "' is out of range for varsize type!";
+                << value << "' is out of range for varsize type!";
     }
 
-    return result;
+    return static_cast<uint32_t>(value);
 }
 
 float BitStreamReader::readFloat16()
-- 
2.43.0


From 359dd05a94ccc0f9551003c64f0bc1901039011c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:29 +0000
Subject: [PATCH 15/70] fix: Java reader checks the number of bits in the last
 byte also for byte aligned reads

---
 .../runtime/io/ByteArrayBitStreamReader.java  | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
index 3574bff..ef33dfb 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
@@ -756,6 +756,9 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
                     " bytes on offset position " + bytePosition +
                     ". It's beyond end of the stream with length " + buffer.length + ".");
 
+        if (length > 0)
+            checkLastByte(bytePosition + length);
+
         System.arraycopy(buffer, bytePosition, dest, offset, length);
         bytePosition += length;
         return length;
@@ -767,7 +770,7 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
     }
 
     /**
-     * Returns the next byte without resetting the bit offset.
+     * Returns the next whole byte without resetting the bit offset.
      *
      * @return Read next byte.
      *
@@ -775,15 +778,28 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
      */
     private byte nextByte() throws IOException
     {
-        if (bytePosition >= buffer.length)
-            throw new IOException("ByteArrayBitStreamReader: Unable to read byte on offset position " +
-                    bytePosition + ". It's beyond end of the stream with length " + buffer.length + ".");
+        final byte result = (byte)nextUnsignedByte();
+        checkLastByte(bytePosition);
 
-        return buffer[bytePosition++];
+        return result;
+    }
+
+    /**
+     * Checks that whole last byte is available if the given end position is the end of the stream.
+     *
+     * @param endBytePosition Byte position after the bytes which are read as a whole.
+     *
+     * @throws IOException If only a part of the last byte is available.
+     */
+    private void checkLastByte(int endBytePosition) throws IOException
+    {
+        if (endBytePosition == buffer.length && lastByteBits < 8)
+            throw new IOException("ByteArrayBitStreamReader: Unable to read bit on offset position " +
+                    lastByteBits + " in the last byte.");
     }
 
     /**
-     * Returns the next unsigned byte without resetting the bit offset.
+     * Returns the next unsigned byte (which can be available only partially) without resetting the bit offset.
      *
      * @return Read next byte.
      *
@@ -791,7 +807,11 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
      */
     private int nextUnsignedByte() throws IOException
     {
-        return nextByte() & 0xff;
+        if (bytePosition >= buffer.length)
+            throw new IOException("ByteArrayBitStreamReader: Unable to read byte on offset position " +
+                    bytePosition + ". It's beyond end of the stream with length " + buffer.length + ".");
+
+        return buffer[bytePosition++] & 0xff;
     }
 
     /**
-- 
2.43.0


From ded9fd6dd63e37e11e98afb739077934da2e38be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 16/70] fix: conversion of too big finite numbers to float16
 yields infinity

---
 compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp     | 5 +++--
 .../java/runtime/src/zserio/runtime/FloatUtil.java           | 5 +++--
 compiler/extensions/python/runtime/src/zserio/float.py       | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp b/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
index 270f903..64a93ce 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/FloatUtil.cpp
@@ -114,10 +114,11 @@ uint16_t convertFloatToUInt16(float float32)
         // normal number
         const int16_t signedExponent16 = static_cast<int16_t>(static_cast<int32_t>(exponent32) -
                 static_cast<int32_t>(FLOAT32_EXPONENT_BIAS) + static_cast<int32_t>(FLOAT16_EXPONENT_BIAS));
-        if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+        if (signedExponent16 >= FLOAT16_EXPONENT_INFINITY_NAN)
         {
-            // exponent overflow, set infinity or NaN
+            // exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+            significand16 = 0;
         }
         else if (signedExponent16 <= 0)
         {
diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java b/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
index bc295e6..e3ef2bc 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/FloatUtil.java
@@ -115,10 +115,11 @@ public final class FloatUtil
         {
             // normal number
             final short signedExponent16 = (short)(exponent32 - FLOAT32_EXPONENT_BIAS + FLOAT16_EXPONENT_BIAS);
-            if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+            if (signedExponent16 >= FLOAT16_EXPONENT_INFINITY_NAN)
             {
-                // exponent overflow, set infinity or NaN
+                // exponent overflow, set infinity
                 exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+                significand16 = 0;
             }
             else if (signedExponent16 <= 0)
             {
diff --git a/compiler/extensions/python/runtime/src/zserio/float.py b/compiler/extensions/python/runtime/src/zserio/float.py
index b245b17..9a4d05f 100644
--- a/compiler/extensions/python/runtime/src/zserio/float.py
+++ b/compiler/extensions/python/runtime/src/zserio/float.py
@@ -89,9 +89,10 @@ def float_to_uint16(float64: float) -> int:
     else:
         # normal number
         signed_exponent16 = exponent32 - FLOAT32_EXPONENT_BIAS + FLOAT16_EXPONENT_BIAS
-        if signed_exponent16 > FLOAT16_EXPONENT_INFINITY_NAN:
-            # exponent overflow, set infinity or NaN
+        if signed_exponent16 >= FLOAT16_EXPONENT_INFINITY_NAN:
+            # exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN
+            significand16 = 0
         elif signed_exponent16 <= 0:
             # exponent underflow
             if signed_exponent16 <= -FLOAT16_SIGNIFICAND_NUM_BITS:
-- 
2.43.0


From cd6b69b074fc7e991647804d68bc67a8868ed2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 17/70] fix: Java bit stream reader stays within the given
 number of bits

---
 .../runtime/io/ByteArrayBitStreamReader.java  | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
index ef33dfb..de9f68b 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
@@ -79,8 +79,13 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
      */
     public ByteArrayBitStreamReader(final byte[] bytes, long bitSize, int maxPreallocatedArraySize)
     {
-        this.buffer = new byte[bytes.length];
-        System.arraycopy(bytes, 0, this.buffer, 0, bytes.length);
+        final long byteSize = (bitSize + 7) / 8;
+        if (bitSize < 0 || bytes.length < byteSize)
+            throw new IllegalArgumentException("ByteArrayBitStreamReader: Bit size " + bitSize +
+                    " out of range for given buffer byte size " + bytes.length + "!");
+
+        this.buffer = new byte[(int)byteSize];
+        System.arraycopy(bytes, 0, this.buffer, 0, this.buffer.length);
         final byte lastBits = (byte)(bitSize % 8);
         lastByteBits = lastBits == 0 ? 8 : lastBits;
         this.maxPreallocatedArraySize = maxPreallocatedArraySize;
@@ -657,6 +662,16 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         }
     }
 
+    @Override
+    public void setBitPosition(final long bitPosition) throws IOException
+    {
+        if (bitPosition < 0 || bitPosition > getBufferBitSize())
+            throw new IOException("ByteArrayBitStreamReader: Bit position " + bitPosition +
+                    " is out of the stream with bit size " + getBufferBitSize() + "!");
+
+        super.setBitPosition(bitPosition);
+    }
+
     @Override
     public long getBufferBitSize()
     {
-- 
2.43.0


From 42fc87e7e473ff86ea890f26e1eaf96891459f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 18/70] fix: C++ bit buffers of different bit sizes are always
 ordered

---
 compiler/extensions/cpp/runtime/src/zserio/BitBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/BitBuffer.h b/compiler/extensions/cpp/runtime/src/zserio/BitBuffer.h
index 6d1db30..dacc191 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BitBuffer.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/BitBuffer.h
@@ -362,7 +362,7 @@ bool BasicBitBuffer<ALLOC>::operator<(const BasicBitBuffer<ALLOC>& other) const
         return false;
     }
 
-    return (first1 == last1) && (first2 != last2);
+    return m_bitSize < other.m_bitSize;
 }
 
 template <typename ALLOC>
-- 
2.43.0


From fdfb6ddf7c9d8ba0ac4af400a4625655f09df31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 19/70] fix: Java equals() distinguishes absent extended fields

---
 .../extensions/java/freemarker/Structure.java.ftl     | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/freemarker/Structure.java.ftl b/compiler/extensions/java/freemarker/Structure.java.ftl
index 7a53f56..5f46a9d 100644
--- a/compiler/extensions/java/freemarker/Structure.java.ftl
+++ b/compiler/extensions/java/freemarker/Structure.java.ftl
@@ -361,12 +361,16 @@ public class ${name} implements <#rt>
                     <@compound_compare_parameter parameter/><#if parameter?has_next || fieldList?has_content> &&<#else>;</#if>
     </#list>
     <#list fieldList as field>
+        <#if field.isExtended>
+                    ((!${field.isPresentIndicatorName}()) ? !that.${field.isPresentIndicatorName}() :
+                        that.${field.isPresentIndicatorName}() &&
+        </#if>
         <#if field.optional??>
             <#-- if optional is not auto and is used the that should be is used as well because all previous paramaters and fields were the same. -->
                     ((!${field.optional.isUsedIndicatorName}()) ? !that.${field.optional.isUsedIndicatorName}() :
-                        <@compound_compare_field field/>)<#if field?has_next> &&<#else>;</#if>
+                        <@compound_compare_field field/>)<#if field.isExtended>)</#if><#if field?has_next> &&<#else>;</#if>
         <#else>
-                    <@compound_compare_field field/><#if field?has_next> &&<#else>;</#if>
+                    <@compound_compare_field field/><#if field.isExtended>)</#if><#if field?has_next> &&<#else>;</#if>
         </#if>
     </#list>
         }
@@ -384,6 +388,9 @@ public class ${name} implements <#rt>
 
         <@compound_parameter_hash_code compoundParametersData/>
 <#list fieldList as field>
+    <#if field.isExtended>
+        if (${field.isPresentIndicatorName}())
+    </#if>
     <#if field.optional??>
         if (${field.optional.isUsedIndicatorName}())
             result = zserio.runtime.HashCodeUtil.calcHashCode(result, <@field_member_name field/>);
-- 
2.43.0


From a94a4cc2661af25dfbf62af5747a8be6e14390d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 20/70] fix: C++ JSON encoder writes floating point values
 which are read back exactly

---
 .../cpp/runtime/src/zserio/JsonEncoder.cpp    | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/JsonEncoder.cpp b/compiler/extensions/cpp/runtime/src/zserio/JsonEncoder.cpp
index 61580e3..9be76f4 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/JsonEncoder.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/JsonEncoder.cpp
@@ -1,5 +1,8 @@
 #include <array>
 #include <cmath>
+#include <cstdio>
+#include <cstdlib>
+#include <cstring>
 #include <iomanip>
 #include <string>
 
@@ -43,7 +46,21 @@ void JsonEncoder::encodeFloatingPoint(std::ostream& stream, double value)
         }
         else
         {
-            stream << std::setprecision(15) << value << std::defaultfloat;
+            // up to 17 digits are needed to get the same value back
+            std::array<char, 32> buffer{};
+            for (int precision = 15; precision <= 17; ++precision)
+            {
+                (void)std::snprintf(buffer.data(), buffer.size(), "%.*g", precision, value);
+                if (std::strtod(buffer.data(), nullptr) == value)
+                {
+                    break;
+                }
+            }
+            stream << buffer.data();
+            if (std::strpbrk(buffer.data(), ".e") == nullptr)
+            {
+                stream << ".0";
+            }
         }
     }
 }
-- 
2.43.0


From acf8d9b21d7ef444668b71e242857231753061ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:15 +0000
Subject: [PATCH 21/70] fix: C++ JSON decoder converts unicode escapes of
 non-ASCII characters to UTF-8

---
 .../extensions/cpp/runtime/src/zserio/JsonDecoder.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/JsonDecoder.h b/compiler/extensions/cpp/runtime/src/zserio/JsonDecoder.h
index 9e9615e..41c2abf 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/JsonDecoder.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/JsonDecoder.h
@@ -299,8 +299,17 @@ bool BasicJsonDecoder<ALLOC>::decodeUnicodeEscape(
 
     const uint32_t characterInt = (static_cast<uint32_t>(hex1) << 4U) | static_cast<uint32_t>(hex2);
     using char_traits = std::char_traits<char>;
-    const char character = char_traits::to_char_type(static_cast<char_traits::int_type>(characterInt));
-    value.push_back(character);
+    if (characterInt <= 0x7FU)
+    {
+        value.push_back(char_traits::to_char_type(static_cast<char_traits::int_type>(characterInt)));
+    }
+    else
+    {
+        // two bytes in UTF-8
+        value.push_back(char_traits::to_char_type(static_cast<char_traits::int_type>(0xC0U | (characterInt >> 6U))));
+        value.push_back(
+                char_traits::to_char_type(static_cast<char_traits::int_type>(0x80U | (characterInt & 0x3FU))));
+    }
 
     return true;
 }
-- 
2.43.0


From 31f07bd3e63a8f85738b0ed06ab1441f9e3ec991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 22/70] fix: Java type info of pubsub without messages refers
 to a not existing package

---
 compiler/extensions/java/freemarker/TypeInfo.inc.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/java/freemarker/TypeInfo.inc.ftl b/compiler/extensions/java/freemarker/TypeInfo.inc.ftl
index 232da2d..d9de71e 100644
--- a/compiler/extensions/java/freemarker/TypeInfo.inc.ftl
+++ b/compiler/extensions/java/freemarker/TypeInfo.inc.ftl
@@ -261,7 +261,7 @@ ${I}java.util.Arrays.asList(
         </#list>
 ${I})
     <#else>
-${I}new java.util.ArrayList<zserio.rutnime.typeinfo.MessageInfo>()
+${I}new java.util.ArrayList<zserio.runtime.typeinfo.MessageInfo>()
     </#if>
 </#macro>
 
-- 
2.43.0


From bcfd23c5b25a4788eefacc317cf4903073f21a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 23/70] fix: Python logical negation as an operand of equality
 operators is a syntax error

---
 .../extension/python/PythonExpressionFormattingPolicy.java      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index c64b2fd..0577706 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -158,7 +158,7 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     @Override
     public UnaryExpressionFormatting getBang(Expression expr)
     {
-        return new UnaryExpressionFormatting("not ");
+        return new UnaryExpressionFormatting("(not ", ")");
     }
 
     @Override
-- 
2.43.0


From efa6d3ed49ac3dabcc5dd5322a55938b2e16e2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 24/70] fix: nested unary minus or plus is generated as
 decrement or increment operator

---
 .../common/DefaultExpressionFormattingPolicy.java    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/compiler/core/src/zserio/extension/common/DefaultExpressionFormattingPolicy.java b/compiler/core/src/zserio/extension/common/DefaultExpressionFormattingPolicy.java
index 8fafadb..5c2b324 100644
--- a/compiler/core/src/zserio/extension/common/DefaultExpressionFormattingPolicy.java
+++ b/compiler/core/src/zserio/extension/common/DefaultExpressionFormattingPolicy.java
@@ -1,5 +1,6 @@
 package zserio.extension.common;
 
+import zserio.antlr.ZserioParser;
 import zserio.ast.Expression;
 
 /**
@@ -36,13 +37,15 @@ public abstract class DefaultExpressionFormattingPolicy implements ExpressionFor
     @Override
     public UnaryExpressionFormatting getUnaryPlus(Expression expr)
     {
-        return new UnaryExpressionFormatting("+");
+        // avoid increment operator if the operand is unary plus as well
+        return new UnaryExpressionFormatting(isUnary(expr.op1(), ZserioParser.PLUS) ? "+ " : "+");
     }
 
     @Override
     public UnaryExpressionFormatting getUnaryMinus(Expression expr)
     {
-        return new UnaryExpressionFormatting("-");
+        // avoid decrement operator if the operand is unary minus as well
+        return new UnaryExpressionFormatting(isUnary(expr.op1(), ZserioParser.MINUS) ? "- " : "-");
     }
 
     @Override
@@ -182,4 +185,9 @@ public abstract class DefaultExpressionFormattingPolicy implements ExpressionFor
     {
         return new TernaryExpressionFormatting(expr, "(", ") ? ", " : ", "");
     }
+
+    private static boolean isUnary(Expression expr, int type)
+    {
+        return expr.getType() == type && expr.op2() == null;
+    }
 }
-- 
2.43.0


From 64cb9c5527dd6b3c996762a94c4fbc9d12a07ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 25/70] fix: valueof operator is applied only on the last
 operand of its expression

---
 .../java/JavaDefaultExpressionFormattingPolicy.java        | 2 +-
 .../extension/python/PythonExpressionFormattingPolicy.java | 7 ++-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
index 42eecaa..70504db 100644
--- a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
+++ b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
@@ -243,7 +243,7 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
     @Override
     public UnaryExpressionFormatting getValueOf(Expression expr)
     {
-        return new UnaryExpressionFormatting("", ".getValue()");
+        return new UnaryExpressionFormatting("(", ").getValue()");
     }
 
     @Override
diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index 0577706..aa00cf3 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -190,11 +190,8 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     @Override
     public UnaryExpressionFormatting getValueOf(Expression expr) throws ZserioExtensionException
     {
-        if (expr.op1().getExprType() == Expression.ExpressionType.ENUM)
-        {
-            return new UnaryExpressionFormatting("", ".value");
-        }
-        else if (expr.op1().getExprType() == Expression.ExpressionType.BITMASK)
+        if (expr.op1().getExprType() == Expression.ExpressionType.ENUM ||
+                expr.op1().getExprType() == Expression.ExpressionType.BITMASK)
         {
             // TODO[Mi-L@]: Use parentheses only when needed (i.e when applied on another expression)
             return new UnaryExpressionFormatting("(", ").value");
-- 
2.43.0


From 29109694517b3d75cb7ea571958a1d9ebb4e03f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 26/70] fix: chained comparison operators have a different
 meaning in Python

---
 .../PythonExpressionFormattingPolicy.java     | 41 ++++++++++++++++---
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index aa00cf3..346ceee 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -1,5 +1,6 @@
 package zserio.extension.python;
 
+import zserio.antlr.ZserioParser;
 import zserio.ast.BitmaskType;
 import zserio.ast.BitmaskValue;
 import zserio.ast.Constant;
@@ -250,37 +251,37 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     @Override
     public BinaryExpressionFormatting getEq(Expression expr)
     {
-        return new BinaryExpressionFormatting(" == ");
+        return formatComparison(expr, "==");
     }
 
     @Override
     public BinaryExpressionFormatting getNe(Expression expr)
     {
-        return new BinaryExpressionFormatting(" != ");
+        return formatComparison(expr, "!=");
     }
 
     @Override
     public BinaryExpressionFormatting getLt(Expression expr)
     {
-        return new BinaryExpressionFormatting(" < ");
+        return formatComparison(expr, "<");
     }
 
     @Override
     public BinaryExpressionFormatting getLe(Expression expr)
     {
-        return new BinaryExpressionFormatting(" <= ");
+        return formatComparison(expr, "<=");
     }
 
     @Override
     public BinaryExpressionFormatting getGe(Expression expr)
     {
-        return new BinaryExpressionFormatting(" >= ");
+        return formatComparison(expr, ">=");
     }
 
     @Override
     public BinaryExpressionFormatting getGt(Expression expr)
     {
-        return new BinaryExpressionFormatting(" > ");
+        return formatComparison(expr, ">");
     }
 
     @Override
@@ -390,6 +391,34 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
         result.append(AccessorNameFormatter.getPropertyName(param));
     }
 
+    private static BinaryExpressionFormatting formatComparison(Expression expr, String operator)
+    {
+        // comparison operators are chained in Python, thus operands which are comparisons need parentheses
+        final boolean isOp1Comparison = isComparison(expr.op1());
+        final boolean isOp2Comparison = isComparison(expr.op2());
+
+        return new BinaryExpressionFormatting(isOp1Comparison ? "(" : "",
+                (isOp1Comparison ? ") " : " ") + operator + (isOp2Comparison ? " (" : " "),
+                isOp2Comparison ? ")" : "");
+    }
+
+    private static boolean isComparison(Expression expr)
+    {
+        switch (expr.getType())
+        {
+        case ZserioParser.EQ:
+        case ZserioParser.NE:
+        case ZserioParser.LT:
+        case ZserioParser.LE:
+        case ZserioParser.GT:
+        case ZserioParser.GE:
+            return true;
+
+        default:
+            return false;
+        }
+    }
+
     private void formatEnumItem(StringBuilder result, boolean isMostLeftId, EnumItem enumItem,
             ZserioType exprType) throws ZserioExtensionException
     {
-- 
2.43.0


From b71e3445531cb28ee58ca2ed2c49abf1dc65a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:06 +0000
Subject: [PATCH 27/70] fix: Python integer division and modulo of negative
 values differ from other languages

---
 .../python/runtime/src/zserio/builtin.py      | 30 +++++++++++++++++++
 .../PythonExpressionFormattingPolicy.java     | 28 ++++++++++++++---
 2 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/python/runtime/src/zserio/builtin.py b/compiler/extensions/python/runtime/src/zserio/builtin.py
index 96fd5f7..8e6fc7c 100644
--- a/compiler/extensions/python/runtime/src/zserio/builtin.py
+++ b/compiler/extensions/python/runtime/src/zserio/builtin.py
@@ -46,3 +46,33 @@ def lengthof_string(string: str) -> int:
     """
 
     return len(string.encode("utf-8"))
+
+
+def div(dividend: int, divisor: int) -> int:
+    """
+    Divides integers with rounding towards zero.
+
+    This method implements zserio integer operator / for operands which might be negative.
+
+    :param dividend: Dividend.
+    :param divisor: Divisor.
+    :returns: Quotient rounded towards zero.
+    """
+
+    quotient = abs(dividend) // abs(divisor)
+
+    return quotient if (dividend < 0) == (divisor < 0) else -quotient
+
+
+def mod(dividend: int, divisor: int) -> int:
+    """
+    Gets the remainder of the integer division with rounding towards zero.
+
+    This method implements zserio integer operator % for operands which might be negative.
+
+    :param dividend: Dividend.
+    :param divisor: Divisor.
+    :returns: Remainder which has the same sign as dividend.
+    """
+
+    return dividend - divisor * div(dividend, divisor)
diff --git a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
index 346ceee..c9e6725 100644
--- a/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
+++ b/compiler/extensions/python/src/zserio/extension/python/PythonExpressionFormattingPolicy.java
@@ -1,5 +1,7 @@
 package zserio.extension.python;
 
+import java.math.BigInteger;
+
 import zserio.antlr.ZserioParser;
 import zserio.ast.BitmaskType;
 import zserio.ast.BitmaskValue;
@@ -318,16 +320,26 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
     public BinaryExpressionFormatting getDivide(Expression expr)
     {
         // simulate behavior from other languages (#718)
-        if (expr.getExprType() == Expression.ExpressionType.INTEGER)
-            return new BinaryExpressionFormatting(" // ");
-        else
+        if (expr.getExprType() != Expression.ExpressionType.INTEGER)
             return new BinaryExpressionFormatting(" / ");
+
+        if (isNonNegative(expr.op1()) && isNonNegative(expr.op2()))
+            return new BinaryExpressionFormatting(" // ");
+
+        // Python operator '//' rounds down but other languages round towards zero
+        importCollector.importPackage("zserio");
+        return new BinaryExpressionFormatting("zserio.builtin.div(", ", ", ")");
     }
 
     @Override
     public BinaryExpressionFormatting getModulo(Expression expr)
     {
-        return new BinaryExpressionFormatting(" % ");
+        if (isNonNegative(expr.op1()) && isNonNegative(expr.op2()))
+            return new BinaryExpressionFormatting(" % ");
+
+        // the result of Python operator '%' has the sign of divisor but of dividend in other languages
+        importCollector.importPackage("zserio");
+        return new BinaryExpressionFormatting("zserio.builtin.mod(", ", ", ")");
     }
 
     @Override
@@ -391,6 +403,14 @@ class PythonExpressionFormattingPolicy implements ExpressionFormattingPolicy
         result.append(AccessorNameFormatter.getPropertyName(param));
     }
 
+    private static boolean isNonNegative(Expression expr)
+    {
+        final BigInteger lowerBound = expr.getIntegerLowerBound();
+        final BigInteger upperBound = expr.getIntegerUpperBound();
+
+        return lowerBound != null && upperBound != null && lowerBound.signum() >= 0 && upperBound.signum() >= 0;
+    }
+
     private static BinaryExpressionFormatting formatComparison(Expression expr, String operator)
     {
         // comparison operators are chained in Python, thus operands which are comparisons need parentheses
-- 
2.43.0


From 29826cf0679a67979739a812e4ac941df6eb985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:26 +0000
Subject: [PATCH 28/70] fix: bounds of negated integer expressions are swapped

---
 compiler/core/src/zserio/ast/ExpressionIntegerValue.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
index 94adad7..78074d7 100644
--- a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
+++ b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
@@ -138,7 +138,7 @@ final class ExpressionIntegerValue
             return new ExpressionIntegerValue(value.negate());
 
         if (lowerBound != null && upperBound != null)
-            return new ExpressionIntegerValue(lowerBound.negate(), upperBound.negate(), needsBigInteger);
+            return new ExpressionIntegerValue(upperBound.negate(), lowerBound.negate(), needsBigInteger);
 
         return new ExpressionIntegerValue(needsBigInteger);
     }
-- 
2.43.0


From 7b6bf88cb2703039cb2e38b86be6b3f11d099e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 29/70] fix: compiler fails with internal error on shifts by
 possibly big values

---
 .../zserio/ast/ExpressionIntegerValue.java    | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
index 78074d7..08d3ba2 100644
--- a/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
+++ b/compiler/core/src/zserio/ast/ExpressionIntegerValue.java
@@ -306,13 +306,21 @@ final class ExpressionIntegerValue
     public ExpressionIntegerValue shiftLeft(ExpressionIntegerValue operand)
     {
         if (value != null && operand.value != null)
-            return new ExpressionIntegerValue(value.shiftLeft(operand.value.intValue()), needsBigInteger);
+            return new ExpressionIntegerValue(value.shiftLeft(getShift(operand.value)), needsBigInteger);
 
         if (lowerBound != null && upperBound != null && operand.lowerBound != null &&
                 operand.upperBound != null)
         {
-            return new ExpressionIntegerValue(lowerBound.shiftLeft(operand.lowerBound.intValue()),
-                    upperBound.shiftLeft(operand.upperBound.intValue()), needsBigInteger);
+            final int lowerShift = getShift(operand.lowerBound);
+            final int upperShift = getShift(operand.upperBound);
+            final MinMaxValue minMaxValue = new MinMaxValue();
+
+            minMaxValue.add(lowerBound.shiftLeft(lowerShift));
+            minMaxValue.add(lowerBound.shiftLeft(upperShift));
+            minMaxValue.add(upperBound.shiftLeft(lowerShift));
+            minMaxValue.add(upperBound.shiftLeft(upperShift));
+
+            return new ExpressionIntegerValue(minMaxValue.getMin(), minMaxValue.getMax(), needsBigInteger);
         }
 
         return new ExpressionIntegerValue(needsBigInteger);
@@ -328,13 +336,21 @@ final class ExpressionIntegerValue
     public ExpressionIntegerValue shiftRight(ExpressionIntegerValue operand)
     {
         if (value != null && operand.value != null)
-            return new ExpressionIntegerValue(value.shiftRight(operand.value.intValue()), needsBigInteger);
+            return new ExpressionIntegerValue(value.shiftRight(getShift(operand.value)), needsBigInteger);
 
         if (lowerBound != null && upperBound != null && operand.lowerBound != null &&
                 operand.upperBound != null)
         {
-            return new ExpressionIntegerValue(lowerBound.shiftRight(operand.lowerBound.intValue()),
-                    upperBound.shiftRight(operand.upperBound.intValue()), needsBigInteger);
+            final int lowerShift = getShift(operand.lowerBound);
+            final int upperShift = getShift(operand.upperBound);
+            final MinMaxValue minMaxValue = new MinMaxValue();
+
+            minMaxValue.add(lowerBound.shiftRight(lowerShift));
+            minMaxValue.add(lowerBound.shiftRight(upperShift));
+            minMaxValue.add(upperBound.shiftRight(lowerShift));
+            minMaxValue.add(upperBound.shiftRight(upperShift));
+
+            return new ExpressionIntegerValue(minMaxValue.getMin(), minMaxValue.getMax(), needsBigInteger);
         }
 
         return new ExpressionIntegerValue(needsBigInteger);
@@ -500,6 +516,12 @@ final class ExpressionIntegerValue
         return BigInteger.valueOf(calcValue.bitLength());
     }
 
+    private static int getShift(BigInteger shift)
+    {
+        // bits shifted out of all integer types are not interesting but they would exceed BigInteger range
+        return shift.min(BigInteger.valueOf(MAX_SHIFT)).max(BigInteger.valueOf(-MAX_SHIFT)).intValue();
+    }
+
     private static final class MinMaxValue
     {
         public void add(BigInteger value)
@@ -529,6 +551,8 @@ final class ExpressionIntegerValue
         private BigInteger maxValue;
     }
 
+    private static final int MAX_SHIFT = 1024;
+
     private final BigInteger value;
     private final BigInteger lowerBound;
     private final BigInteger upperBound;
-- 
2.43.0


From 6fa73e94eff0d4f41217014138d4f368187e6ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:35 +0000
Subject: [PATCH 30/70] fix: compiler fails with internal error on division by
 zero in constant expressions

---
 compiler/core/src/zserio/ast/Expression.java | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/core/src/zserio/ast/Expression.java b/compiler/core/src/zserio/ast/Expression.java
index 9eed87d..a25ee12 100644
--- a/compiler/core/src/zserio/ast/Expression.java
+++ b/compiler/core/src/zserio/ast/Expression.java
@@ -1406,6 +1406,12 @@ public final class Expression extends AstNodeBase
             else
             {
                 expressionType = ExpressionType.INTEGER;
+                if ((getType() == ZserioParser.DIVIDE || getType() == ZserioParser.MODULO) &&
+                        operand1.getIntegerValue() != null && BigInteger.ZERO.equals(operand2.getIntegerValue()))
+                {
+                    throw new ParserException(operand2, "Division by zero detected in constant expression!");
+                }
+
                 switch (getType())
                 {
                 case ZserioParser.PLUS:
-- 
2.43.0


From abb0fb94f95232a5c3279545ddd1ba834080d3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 31/70] fix: subtypes of SQL tables are generated even if SQL
 tables are not

---
 .../cpp/src/zserio/extension/cpp/SubtypeEmitter.java         | 5 +++++
 .../java/src/zserio/extension/java/SubtypeEmitter.java       | 5 +++++
 .../python/src/zserio/extension/python/ApiEmitter.java       | 3 ++-
 .../python/src/zserio/extension/python/SubtypeEmitter.java   | 5 +++++
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/src/zserio/extension/cpp/SubtypeEmitter.java b/compiler/extensions/cpp/src/zserio/extension/cpp/SubtypeEmitter.java
index 2f2fb37..f0d6bb5 100644
--- a/compiler/extensions/cpp/src/zserio/extension/cpp/SubtypeEmitter.java
+++ b/compiler/extensions/cpp/src/zserio/extension/cpp/SubtypeEmitter.java
@@ -1,5 +1,6 @@
 package zserio.extension.cpp;
 
+import zserio.ast.SqlTableType;
 import zserio.ast.Subtype;
 import zserio.extension.common.OutputFileManager;
 import zserio.extension.common.PackedTypesCollector;
@@ -19,6 +20,10 @@ public final class SubtypeEmitter extends CppDefaultEmitter
     @Override
     public void beginSubtype(Subtype subtype) throws ZserioExtensionException
     {
+        // tables are not generated without SQL code
+        if (!getWithSqlCode() && subtype.getBaseTypeReference().getType() instanceof SqlTableType)
+            return;
+
         Object templateData = new SubtypeEmitterTemplateData(getTemplateDataContext(), subtype);
 
         processHeaderTemplate(TEMPLATE_HEADER_NAME, templateData, subtype);
diff --git a/compiler/extensions/java/src/zserio/extension/java/SubtypeEmitter.java b/compiler/extensions/java/src/zserio/extension/java/SubtypeEmitter.java
index ece1c19..3741272 100644
--- a/compiler/extensions/java/src/zserio/extension/java/SubtypeEmitter.java
+++ b/compiler/extensions/java/src/zserio/extension/java/SubtypeEmitter.java
@@ -1,6 +1,7 @@
 package zserio.extension.java;
 
 import zserio.ast.CompoundType;
+import zserio.ast.SqlTableType;
 import zserio.ast.Subtype;
 import zserio.ast.ZserioType;
 import zserio.extension.common.OutputFileManager;
@@ -21,6 +22,10 @@ public final class SubtypeEmitter extends JavaDefaultEmitter
     @Override
     public void beginSubtype(Subtype subtype) throws ZserioExtensionException
     {
+        // tables are not generated without SQL code
+        if (!getWithSqlCode() && subtype.getBaseTypeReference().getType() instanceof SqlTableType)
+            return;
+
         final ZserioType referencedType = subtype.getBaseTypeReference().getType();
         if (referencedType instanceof CompoundType)
         {
diff --git a/compiler/extensions/python/src/zserio/extension/python/ApiEmitter.java b/compiler/extensions/python/src/zserio/extension/python/ApiEmitter.java
index 7a6f0df..c1f554b 100644
--- a/compiler/extensions/python/src/zserio/extension/python/ApiEmitter.java
+++ b/compiler/extensions/python/src/zserio/extension/python/ApiEmitter.java
@@ -88,7 +88,8 @@ final class ApiEmitter extends PythonDefaultEmitter
     @Override
     public void beginSubtype(Subtype subtype) throws ZserioExtensionException
     {
-        addTypeMapping(subtype);
+        if (getWithSqlCode() || !(subtype.getBaseTypeReference().getType() instanceof SqlTableType))
+            addTypeMapping(subtype);
     }
 
     @Override
diff --git a/compiler/extensions/python/src/zserio/extension/python/SubtypeEmitter.java b/compiler/extensions/python/src/zserio/extension/python/SubtypeEmitter.java
index 482d867..1c7bb9f 100644
--- a/compiler/extensions/python/src/zserio/extension/python/SubtypeEmitter.java
+++ b/compiler/extensions/python/src/zserio/extension/python/SubtypeEmitter.java
@@ -1,5 +1,6 @@
 package zserio.extension.python;
 
+import zserio.ast.SqlTableType;
 import zserio.ast.Subtype;
 import zserio.extension.common.OutputFileManager;
 import zserio.extension.common.PackedTypesCollector;
@@ -19,6 +20,10 @@ final class SubtypeEmitter extends PythonDefaultEmitter
     @Override
     public void beginSubtype(Subtype subtype) throws ZserioExtensionException
     {
+        // tables are not generated without SQL code
+        if (!getWithSqlCode() && subtype.getBaseTypeReference().getType() instanceof SqlTableType)
+            return;
+
         final SubtypeEmitterTemplateData templateData =
                 new SubtypeEmitterTemplateData(getTemplateDataContext(), subtype);
         processSourceTemplate(TEMPLATE_SOURCE_NAME, templateData, subtype);
-- 
2.43.0


From c9ed42cfa71affb3868031f83866afae2102385d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:23 +0000
Subject: [PATCH 32/70] fix: Java code which uses constants of uint64 types
 does not compile

---
 compiler/core/src/zserio/ast/Expression.java  |  6 ++++-
 ...JavaDefaultExpressionFormattingPolicy.java | 22 +++++++++++++++----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/compiler/core/src/zserio/ast/Expression.java b/compiler/core/src/zserio/ast/Expression.java
index a25ee12..29c1f51 100644
--- a/compiler/core/src/zserio/ast/Expression.java
+++ b/compiler/core/src/zserio/ast/Expression.java
@@ -1747,7 +1747,11 @@ public final class Expression extends AstNodeBase
         constant.accept(evaluator);
 
         final Expression constValueExpression = constant.getValueExpression();
-        expressionIntegerValue = constValueExpression.expressionIntegerValue;
+        expressionIntegerValue =
+                new ExpressionIntegerValue(constValueExpression.expressionIntegerValue.getValue(),
+                        constValueExpression.expressionIntegerValue.getLowerBound(),
+                        constValueExpression.expressionIntegerValue.getUpperBound(),
+                        expressionIntegerValue.needsBigInteger()); // needsBigInteger must be according to type
         expressionStringValue = constValueExpression.expressionStringValue;
     }
 
diff --git a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
index 70504db..6f3c017 100644
--- a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
+++ b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
@@ -15,12 +15,14 @@ import zserio.ast.Function;
 import zserio.ast.Package;
 import zserio.ast.Parameter;
 import zserio.ast.Subtype;
+import zserio.ast.TypeInstantiation;
 import zserio.ast.ZserioType;
 import zserio.extension.common.DefaultExpressionFormattingPolicy;
 import zserio.extension.common.StringEscapeConverter;
 import zserio.extension.common.ZserioExtensionException;
 import zserio.extension.java.symbols.JavaNativeSymbol;
 import zserio.extension.java.types.JavaNativeType;
+import zserio.extension.java.types.NativeBigIntegerType;
 
 /**
  * Default expressions formatting policy for Java expressions.
@@ -152,15 +154,13 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         final String symbol = expr.getText();
         final boolean isMostLeftId = expr.isMostLeftId();
         final StringBuilder result = new StringBuilder();
-        final BigInteger exprUpperBound = expr.getIntegerUpperBound();
-        final boolean isMappedToBigInteger =
-                (exprUpperBound != null && exprUpperBound.compareTo(BigInteger.valueOf(Long.MAX_VALUE)) > 0);
+        final AstNode resolvedSymbol = expr.getExprSymbolObject();
+        final boolean isMappedToBigInteger = isMappedToBigInteger(expr, resolvedSymbol);
         final boolean needsCastingToBigInteger = (!isMappedToBigInteger && expr.needsBigInteger());
         if (isMostLeftId && needsCastingToBigInteger)
             result.append(BIG_INTEGER + ".valueOf(");
 
         // ignore package identifiers, they will be a part of the following Zserio type
-        final AstNode resolvedSymbol = expr.getExprSymbolObject();
         if (resolvedSymbol instanceof ZserioType)
         {
             formatTypeIdentifier(result, (ZserioType)resolvedSymbol);
@@ -587,6 +587,20 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         result.append(bitmaskValue.getName());
     }
 
+    private boolean isMappedToBigInteger(Expression expr, AstNode resolvedSymbol)
+            throws ZserioExtensionException
+    {
+        if (resolvedSymbol instanceof Constant)
+        {
+            // bounds of the expression are given by the constant value but native type by the constant type
+            final TypeInstantiation typeInstantiation = ((Constant)resolvedSymbol).getTypeInstantiation();
+            return javaNativeMapper.getJavaType(typeInstantiation) instanceof NativeBigIntegerType;
+        }
+
+        final BigInteger exprUpperBound = expr.getIntegerUpperBound();
+        return exprUpperBound != null && exprUpperBound.compareTo(BigInteger.valueOf(Long.MAX_VALUE)) > 0;
+    }
+
     private void formatConstant(StringBuilder result, Constant constant) throws ZserioExtensionException
     {
         JavaNativeSymbol nativeSymbol = javaNativeMapper.getJavaSymbol(constant);
-- 
2.43.0


From 91086245590f4c63d6554753af5f21263b865b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:27 +0000
Subject: [PATCH 33/70] fix: Java constants of narrow types with not constant
 Java expressions do not compile

---
 compiler/extensions/java/freemarker/Constant.java.ftl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/java/freemarker/Constant.java.ftl b/compiler/extensions/java/freemarker/Constant.java.ftl
index c15ad3f..97b8487 100644
--- a/compiler/extensions/java/freemarker/Constant.java.ftl
+++ b/compiler/extensions/java/freemarker/Constant.java.ftl
@@ -10,5 +10,6 @@ public final class ${name}
 <#if withCodeComments && docComments??>
     <@doc_comments docComments, 1/>
 </#if>
-    public static final ${typeInfo.typeFullName} ${name} = ${value};
+    public static final ${typeInfo.typeFullName} ${name} =<#rt>
+            <#lt> <#if typeInfo.isIntegral && typeInfo.isSimple>(${typeInfo.typeFullName})(${value})<#else>${value}</#if>;
 }
-- 
2.43.0


From b2589f3f16a4b3693d58648d20279253365f573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:34 +0000
Subject: [PATCH 34/70] fix: compiler fails with internal error if an
 enumeration item or bitmask value cannot be evaluated

---
 compiler/core/src/zserio/ast/BitmaskValue.java | 3 +++
 compiler/core/src/zserio/ast/EnumItem.java     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/compiler/core/src/zserio/ast/BitmaskValue.java b/compiler/core/src/zserio/ast/BitmaskValue.java
index ba3eb2f..4d424fa 100644
--- a/compiler/core/src/zserio/ast/BitmaskValue.java
+++ b/compiler/core/src/zserio/ast/BitmaskValue.java
@@ -94,6 +94,9 @@ public final class BitmaskValue extends DocumentableAstNode implements ScopeSymb
                             valueExpression, "Bitmask value '" + getName() + "' is not an integral type!");
 
                 value = valueExpression.getIntegerValue();
+                if (value == null)
+                    throw new ParserException(
+                            valueExpression, "Bitmask value '" + getName() + "' has value which cannot be evaluated!");
                 if (value.compareTo(BigInteger.ZERO) == -1)
                     throw new ParserException(valueExpression,
                             "Bitmask value '" + getName() + "(" + value + ") cannot be negative!");
diff --git a/compiler/core/src/zserio/ast/EnumItem.java b/compiler/core/src/zserio/ast/EnumItem.java
index df7e7c9..b4d7e81 100644
--- a/compiler/core/src/zserio/ast/EnumItem.java
+++ b/compiler/core/src/zserio/ast/EnumItem.java
@@ -118,6 +118,9 @@ public final class EnumItem extends DocumentableAstNode implements ScopeSymbol
                     throw new ParserException(
                             valueExpression, "Enumeration item '" + getName() + "' has non-integer value!");
                 value = valueExpression.getIntegerValue();
+                if (value == null)
+                    throw new ParserException(
+                            valueExpression, "Enumeration item '" + getName() + "' has value which cannot be evaluated!");
             }
 
             isEvaluated = true;
-- 
2.43.0


From 16bff63b41efbe7d5ac6af9f802c8959a51c9274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:29 +0000
Subject: [PATCH 35/70] fix: Java generator fails on choice cases which cannot
 be evaluated

---
 compiler/extensions/java/freemarker/Choice.java.ftl            | 3 ++-
 .../src/zserio/extension/java/ChoiceEmitterTemplateData.java   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/freemarker/Choice.java.ftl b/compiler/extensions/java/freemarker/Choice.java.ftl
index 91d05e6..dbbd98b 100644
--- a/compiler/extensions/java/freemarker/Choice.java.ftl
+++ b/compiler/extensions/java/freemarker/Choice.java.ftl
@@ -11,7 +11,8 @@
         <#list caseList as case>
             <#if case_index != 0>
  ||
-                 </#if>selector.compareTo(new java.math.BigInteger("${case.integerValue}")) == 0<#rt>
+                 </#if>selector.compareTo(<#if case.integerValue??>new java.math.BigInteger("${case.integerValue}")<#rt>
+                 <#lt><#else>java.math.BigInteger.valueOf(${case.expressionForIf})</#if>) == 0<#rt>
         </#list>
     <#elseif selectorExpressionBitmaskTypeName??>
         <#list caseList as case>
diff --git a/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java b/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
index 0f30d88..2b2669a 100644
--- a/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
+++ b/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
@@ -128,7 +128,8 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
             public Case(TemplateDataContext context, Expression choiceExpression)
                     throws ZserioExtensionException
             {
-                if (choiceExpression.getExprType() == Expression.ExpressionType.INTEGER)
+                if (choiceExpression.getExprType() == Expression.ExpressionType.INTEGER &&
+                        choiceExpression.getIntegerValue() != null)
                 {
                     // value is used because native type of the case can differ from the type of the selector
                     integerValue = choiceExpression.getIntegerValue().toString();
-- 
2.43.0


From 6af01dd2a5b6454c76e13236103f9341407265b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 36/70] fix: case expressions in Java type information do not
 depend on conditions of generated code

---
 compiler/extensions/java/freemarker/TypeInfo.inc.ftl   |  2 +-
 .../extension/java/ChoiceEmitterTemplateData.java      | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/java/freemarker/TypeInfo.inc.ftl b/compiler/extensions/java/freemarker/TypeInfo.inc.ftl
index d9de71e..414d004 100644
--- a/compiler/extensions/java/freemarker/TypeInfo.inc.ftl
+++ b/compiler/extensions/java/freemarker/TypeInfo.inc.ftl
@@ -167,7 +167,7 @@ ${I}new java.util.ArrayList<zserio.runtime.typeinfo.CaseInfo>();
     <#local I>${""?left_pad(indent * 4)}</#local>
 ${I}java.util.Arrays.asList(
     <#list caseList as case>
-${I}        () -> ${case.expressionForIf}<#if case?has_next>,</#if>
+${I}        () -> ${case.expression}<#if case?has_next>,</#if>
     </#list>
 ${I}),
 </#macro>
diff --git a/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java b/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
index 2b2669a..f3953a2 100644
--- a/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
+++ b/compiler/extensions/java/src/zserio/extension/java/ChoiceEmitterTemplateData.java
@@ -128,6 +128,7 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
             public Case(TemplateDataContext context, Expression choiceExpression)
                     throws ZserioExtensionException
             {
+                expression = context.getJavaExpressionFormatter().formatGetter(choiceExpression);
                 if (choiceExpression.getExprType() == Expression.ExpressionType.INTEGER &&
                         choiceExpression.getIntegerValue() != null)
                 {
@@ -138,15 +139,19 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
                 }
                 else
                 {
-                    final ExpressionFormatter javaExpressionFormatter = context.getJavaExpressionFormatter();
                     final ExpressionFormatter javaCaseExpressionFormatter =
                             context.getJavaCaseExpressionFormatter();
                     integerValue = null;
-                    expressionForIf = javaExpressionFormatter.formatGetter(choiceExpression);
+                    expressionForIf = expression;
                     expressionForCase = javaCaseExpressionFormatter.formatGetter(choiceExpression);
                 }
             }
 
+            public String getExpression()
+            {
+                return expression;
+            }
+
             public String getExpressionForIf()
             {
                 return expressionForIf;
@@ -162,6 +167,7 @@ public final class ChoiceEmitterTemplateData extends CompoundTypeTemplateData
                 return integerValue;
             }
 
+            public final String expression;
             public final String expressionForIf;
             public final String expressionForCase;
             public final String integerValue;
-- 
2.43.0


From 88f5ed52bbd3bb71173d258e841689cbf3d0c94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:20 +0000
Subject: [PATCH 37/70] fix: Python writing refuses bitmask parameters given by
 expressions

---
 compiler/extensions/python/freemarker/CompoundField.inc.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/python/freemarker/CompoundField.inc.ftl b/compiler/extensions/python/freemarker/CompoundField.inc.ftl
index 1899346..e23c479 100644
--- a/compiler/extensions/python/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/python/freemarker/CompoundField.inc.ftl
@@ -359,7 +359,7 @@ ${I}                                        "{0} != {1}!".format(len(self.<@fiel
 ${I}# check parameters
         <#list field.compound.instantiatedParameters as instantiatedParameter>
             <#local parameter=field.compound.parameters.list[instantiatedParameter?index]/>
-            <#local compareOperator><#if parameter.typeInfo.isBuiltin>!=<#else>is not</#if><#t></#local>
+            <#local compareOperator><#if parameter.typeInfo.isBuiltin || parameter.typeInfo.isBitmask>!=<#else>is not</#if><#t></#local>
 ${I}if self.<@field_member_name field/>.${parameter.propertyName} ${compareOperator} (${instantiatedParameter.expression}):
 ${I}    raise zserio.PythonRuntimeException("Wrong parameter ${parameter.name} for field ${compoundName}.${field.name}: "
 ${I}                                        "{0} != {1}!".format(self.<@field_member_name field/>.${parameter.propertyName}, ${instantiatedParameter.expression}))
-- 
2.43.0


From fd73eb36209be6bb56c2ff67d896c3a23b99c277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:18 +0000
Subject: [PATCH 38/70] fix: C++ left shift of signed integers by 31 bits
 overflows

---
 .../src/zserio/extension/cpp/CppExpressionFormattingPolicy.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java b/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
index 3daca7d..7cf8a2a 100644
--- a/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
+++ b/compiler/extensions/cpp/src/zserio/extension/cpp/CppExpressionFormattingPolicy.java
@@ -254,7 +254,7 @@ public class CppExpressionFormattingPolicy extends DefaultExpressionFormattingPo
         {
             // we know that left operand is a signed type
             if (expr.op2().getIntegerUpperBound() != null &&
-                    expr.op2().getIntegerUpperBound().compareTo(BigInteger.valueOf(32)) < 0)
+                    expr.op2().getIntegerUpperBound().compareTo(BigInteger.valueOf(31)) < 0)
             {
                 return new BinaryExpressionFormatting("(", ") * (INT32_C(1) << (", "))");
             }
-- 
2.43.0


From f7f7579d84022a4b628c43d4172332585fbc621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 39/70] fix: Java modulo of big integers differs from other
 languages for negative values

---
 .../extension/java/JavaDefaultExpressionFormattingPolicy.java   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
index 6f3c017..1329805 100644
--- a/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
+++ b/compiler/extensions/java/src/zserio/extension/java/JavaDefaultExpressionFormattingPolicy.java
@@ -407,7 +407,7 @@ public abstract class JavaDefaultExpressionFormattingPolicy extends DefaultExpre
         if (!expr.needsBigInteger())
             return super.getModulo(expr);
 
-        return new BinaryExpressionFormatting("", ".mod(", ")");
+        return new BinaryExpressionFormatting("", ".remainder(", ")");
     }
 
     @Override
-- 
2.43.0


From c800dd776ed81d7a801e368a5e3fb6fead015782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:04 +0000
Subject: [PATCH 40/70] fix: unicode and hexadecimal escapes in string literals
 of C++ and Java code

---
 .../common/StringEscapeConverter.java         |   90 +-
 cpp/a/A.cpp                                   | 5830 +++++++++++++++++
 cpp/a/Blob.h                                  |  122 +
 cpp/a/Col.h                                   |   83 +
 cpp/a/Db.h                                    |  111 +
 cpp/a/Fts.h                                   |  168 +
 cpp/a/Msk.h                                   |  160 +
 cpp/a/Simple.h                                |   81 +
 cpp/a/Tab.h                                   |  356 +
 cpp/a/Tpl_string.h                            |  167 +
 cpp/a/Worowid.h                               |  168 +
 java/a/Blob.java                              |  154 +
 java/a/Col.java                               |   95 +
 java/a/Db.java                                |  281 +
 java/a/Fts.java                               |  520 ++
 java/a/FtsRow.java                            |   52 +
 java/a/Msk.java                               |  133 +
 java/a/Simple.java                            |  105 +
 java/a/Tab.java                               | 2164 ++++++
 java/a/TabRow.java                            |  301 +
 java/a/Tpl_string.java                        |  613 ++
 java/a/Tpl_stringRow.java                     |   55 +
 java/a/Worowid.java                           |  622 ++
 java/a/WorowidRow.java                        |   55 +
 py/a/__init__.py                              |    2 +
 py/a/api.py                                   |   12 +
 py/a/blob.py                                  |   92 +
 py/a/col.py                                   |   43 +
 py/a/db.py                                    |  143 +
 py/a/fts.py                                   |  150 +
 py/a/msk.py                                   |   83 +
 py/a/simple.py                                |   61 +
 py/a/tab.py                                   |  395 ++
 py/a/tpl_string.py                            |  150 +
 py/a/worowid.py                               |  158 +
 35 files changed, 13757 insertions(+), 18 deletions(-)
 create mode 100644 cpp/a/A.cpp
 create mode 100644 cpp/a/Blob.h
 create mode 100644 cpp/a/Col.h
 create mode 100644 cpp/a/Db.h
 create mode 100644 cpp/a/Fts.h
 create mode 100644 cpp/a/Msk.h
 create mode 100644 cpp/a/Simple.h
 create mode 100644 cpp/a/Tab.h
 create mode 100644 cpp/a/Tpl_string.h
 create mode 100644 cpp/a/Worowid.h
 create mode 100644 java/a/Blob.java
 create mode 100644 java/a/Col.java
 create mode 100644 java/a/Db.java
 create mode 100644 java/a/Fts.java
 create mode 100644 java/a/FtsRow.java
 create mode 100644 java/a/Msk.java
 create mode 100644 java/a/Simple.java
 create mode 100644 java/a/Tab.java
 create mode 100644 java/a/TabRow.java
 create mode 100644 java/a/Tpl_string.java
 create mode 100644 java/a/Tpl_stringRow.java
 create mode 100644 java/a/Worowid.java
 create mode 100644 java/a/WorowidRow.java
 create mode 100644 py/a/__init__.py
 create mode 100644 py/a/api.py
 create mode 100644 py/a/blob.py
 create mode 100644 py/a/col.py
 create mode 100644 py/a/db.py
 create mode 100644 py/a/fts.py
 create mode 100644 py/a/msk.py
 create mode 100644 py/a/simple.py
 create mode 100644 py/a/tab.py
 create mode 100644 py/a/tpl_string.py
 create mode 100644 py/a/worowid.py

diff --git a/compiler/core/src/zserio/extension/common/StringEscapeConverter.java b/compiler/core/src/zserio/extension/common/StringEscapeConverter.java
index d21701a..09117b7 100644
--- a/compiler/core/src/zserio/extension/common/StringEscapeConverter.java
+++ b/compiler/core/src/zserio/extension/common/StringEscapeConverter.java
@@ -11,7 +11,7 @@ public final class StringEscapeConverter
     /**
      * Converts unicode escape sequences to hexadecimal in given string.
      *
-     * Only unicode escape sequences from interval &lt;'\u0000', '\u00FF'&gt; are converted.
+     * Only unicode escape sequences from interval &lt;'\u0000', '\u009F'&gt; are converted.
      *
      * @param stringToConvert String for escape sequences conversion.
      *
@@ -27,28 +27,43 @@ public final class StringEscapeConverter
             final char character = stringToConvert.charAt(index);
             int newIndex = index + 1;
             buffer.append(character);
-            if (character == STRING_ESCAPE_CHARACTER && newIndex + ESCAPE_UNICODE_LENGTH < endIndex)
+            if (character == STRING_ESCAPE_CHARACTER && newIndex < endIndex)
             {
                 final char escapeSpecifier = stringToConvert.charAt(newIndex);
+                boolean isHexEscape = false;
                 if (escapeSpecifier == STRING_ESCAPE_CHARACTER)
                 {
                     buffer.append(STRING_ESCAPE_CHARACTER);
                     newIndex++;
                 }
-                else if (escapeSpecifier == ESCAPE_UNICODE_SPECIFIER)
+                else if (escapeSpecifier == ESCAPE_UNICODE_SPECIFIER &&
+                        newIndex + ESCAPE_UNICODE_LENGTH <= endIndex)
                 {
-                    final char firstUnicodeChar = stringToConvert.charAt(newIndex + 1);
-                    final char secondUnicodeChar = stringToConvert.charAt(newIndex + 2);
-                    if (firstUnicodeChar == '0' && secondUnicodeChar == '0')
+                    final int codePoint = Integer.parseInt(
+                            stringToConvert.substring(newIndex + 1, newIndex + ESCAPE_UNICODE_LENGTH), 16);
+                    if (codePoint < FIRST_NON_CONTROL_UNICODE)
                     {
-                        final char thirdUnicodeChar = stringToConvert.charAt(newIndex + 3);
-                        final char fourthUnicodeChar = stringToConvert.charAt(newIndex + 4);
+                        // code points above ASCII must be encoded in UTF-8
+                        if (codePoint >= FIRST_NON_ASCII_UNICODE)
+                            buffer.append(UTF8_LATIN1_CONTROL_PREFIX);
                         buffer.append(ESCAPE_HEXADECIMAL_SPECIFIER);
-                        buffer.append(thirdUnicodeChar);
-                        buffer.append(fourthUnicodeChar);
+                        buffer.append(stringToConvert, newIndex + 3, newIndex + ESCAPE_UNICODE_LENGTH);
                         newIndex += ESCAPE_UNICODE_LENGTH;
+                        isHexEscape = true;
                     }
                 }
+                else if (escapeSpecifier == ESCAPE_HEXADECIMAL_SPECIFIER &&
+                        newIndex + ESCAPE_HEXADECIMAL_LENGTH <= endIndex)
+                {
+                    buffer.append(stringToConvert, newIndex, newIndex + ESCAPE_HEXADECIMAL_LENGTH);
+                    newIndex += ESCAPE_HEXADECIMAL_LENGTH;
+                    isHexEscape = true;
+                }
+
+                // hexadecimal escapes have unlimited length in C++, so that they must be terminated explicitly
+                if (isHexEscape && newIndex < endIndex &&
+                        Character.digit(stringToConvert.charAt(newIndex), 16) >= 0)
+                    buffer.append(STRING_LITERAL_SEPARATOR);
             }
 
             index = newIndex;
@@ -74,7 +89,7 @@ public final class StringEscapeConverter
             final char character = stringToConvert.charAt(index);
             int newIndex = index + 1;
             buffer.append(character);
-            if (character == STRING_ESCAPE_CHARACTER && newIndex + ESCAPE_HEXADECIMAL_LENGTH < endIndex)
+            if (character == STRING_ESCAPE_CHARACTER && newIndex < endIndex)
             {
                 final char escapeSpecifier = stringToConvert.charAt(newIndex);
                 if (escapeSpecifier == STRING_ESCAPE_CHARACTER)
@@ -82,16 +97,21 @@ public final class StringEscapeConverter
                     buffer.append(STRING_ESCAPE_CHARACTER);
                     newIndex++;
                 }
-                else if (escapeSpecifier == ESCAPE_HEXADECIMAL_SPECIFIER)
+                else if (escapeSpecifier == ESCAPE_HEXADECIMAL_SPECIFIER &&
+                        newIndex + ESCAPE_HEXADECIMAL_LENGTH <= endIndex)
                 {
-                    final char firstHexChar = stringToConvert.charAt(newIndex + 1);
-                    final char secondHexChar = stringToConvert.charAt(newIndex + 2);
-                    buffer.append(ESCAPE_UNICODE_SPECIFIER);
-                    buffer.append("00");
-                    buffer.append(firstHexChar);
-                    buffer.append(secondHexChar);
+                    final String hexDigits =
+                            stringToConvert.substring(newIndex + 1, newIndex + ESCAPE_HEXADECIMAL_LENGTH);
+                    appendUnicodeEscape(buffer, "00" + hexDigits);
                     newIndex += ESCAPE_HEXADECIMAL_LENGTH;
                 }
+                else if (escapeSpecifier == ESCAPE_UNICODE_SPECIFIER &&
+                        newIndex + ESCAPE_UNICODE_LENGTH <= endIndex)
+                {
+                    appendUnicodeEscape(
+                            buffer, stringToConvert.substring(newIndex + 1, newIndex + ESCAPE_UNICODE_LENGTH));
+                    newIndex += ESCAPE_UNICODE_LENGTH;
+                }
             }
 
             index = newIndex;
@@ -100,10 +120,44 @@ public final class StringEscapeConverter
         return buffer.toString();
     }
 
+    private static void appendUnicodeEscape(StringBuilder buffer, String unicodeDigits)
+    {
+        // unicode escapes are translated before the lexical analysis in Java, so that they cannot be used for
+        // characters which are not allowed in string literals
+        switch (Integer.parseInt(unicodeDigits, 16))
+        {
+        case '\n':
+            buffer.append('n');
+            break;
+
+        case '\r':
+            buffer.append('r');
+            break;
+
+        case '"':
+            buffer.append('"');
+            break;
+
+        case STRING_ESCAPE_CHARACTER:
+            buffer.append(STRING_ESCAPE_CHARACTER);
+            break;
+
+        default:
+            buffer.append(ESCAPE_UNICODE_SPECIFIER);
+            buffer.append(unicodeDigits);
+            break;
+        }
+    }
+
     private static final char STRING_ESCAPE_CHARACTER = '\\';
     private static final char ESCAPE_HEXADECIMAL_SPECIFIER = 'x';
     private static final char ESCAPE_UNICODE_SPECIFIER = 'u';
 
+    private static final int FIRST_NON_ASCII_UNICODE = 0x80;
+    private static final int FIRST_NON_CONTROL_UNICODE = 0xA0;
+    private static final String UTF8_LATIN1_CONTROL_PREFIX = "xc2\\";
+    private static final String STRING_LITERAL_SEPARATOR = "\"\"";
+
     private static final int ESCAPE_HEXADECIMAL_LENGTH = 3;
     private static final int ESCAPE_UNICODE_LENGTH = 5;
 }
diff --git a/cpp/a/A.cpp b/cpp/a/A.cpp
new file mode 100644
index 0000000..dab4ad7
--- /dev/null
+++ b/cpp/a/A.cpp
@@ -0,0 +1,5830 @@
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#include <zserio/StringConvertUtil.h>
+#include <zserio/CppRuntimeException.h>
+
+#include <a/Col.h>
+
+namespace zserio
+{
+
+// This is full specialization of enumeration traits and methods for Col enumeration.
+constexpr ::std::array<const char*, 3> EnumTraits<::a::Col>::names;
+constexpr ::std::array<::a::Col, 3> EnumTraits<::a::Col>::values;
+constexpr const char* EnumTraits<::a::Col>::enumName;
+
+template <>
+size_t enumToOrdinal(::a::Col value)
+{
+    switch (value)
+    {
+    case ::a::Col::R:
+        return 0;
+    case ::a::Col::G:
+        return 1;
+    case ::a::Col::B:
+        return 2;
+    default:
+        throw ::zserio::CppRuntimeException("Unknown value for enumeration Col: ") <<
+                static_cast<typename ::std::underlying_type<::a::Col>::type>(value) << "!";
+    }
+}
+
+template <>
+::a::Col valueToEnum(
+        typename ::std::underlying_type<::a::Col>::type rawValue)
+{
+    switch (rawValue)
+    {
+    case UINT8_C(0):
+    case UINT8_C(3):
+    case UINT8_C(4):
+        return static_cast<::a::Col>(rawValue);
+    default:
+        throw ::zserio::CppRuntimeException("Unknown value for enumeration Col: ") << rawValue << "!";
+    }
+}
+
+template <>
+uint32_t enumHashCode<::a::Col>(::a::Col value)
+{
+    uint32_t result = ::zserio::HASH_SEED;
+    result = ::zserio::calcHashCode(result, enumToValue(value));
+    return result;
+}
+
+template <>
+size_t bitSizeOf(::a::Col)
+{
+    return UINT8_C(8);
+}
+
+template <>
+size_t initializeOffsets(size_t bitPosition, ::a::Col value)
+{
+    return bitPosition + bitSizeOf(value);
+}
+
+template <>
+::a::Col read(::zserio::BitStreamReader& in)
+{
+    return valueToEnum<::a::Col>(
+            static_cast<typename ::std::underlying_type<::a::Col>::type>(
+                    in.readBits(UINT8_C(8))));
+}
+
+template <>
+void write(::zserio::BitStreamWriter& out, ::a::Col value)
+{
+    out.writeBits(::zserio::enumToValue(value), UINT8_C(8));
+}
+
+} // namespace zserio
+
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#include <zserio/HashCodeUtil.h>
+#include <zserio/StringConvertUtil.h>
+
+#include <a/Msk.h>
+
+namespace a
+{
+
+Msk::Msk(::zserio::BitStreamReader& in) :
+        m_value(readValue(in))
+{}
+
+size_t Msk::bitSizeOf(size_t) const
+{
+    return UINT8_C(8);
+}
+
+size_t Msk::initializeOffsets(size_t bitPosition) const
+{
+    return bitPosition + bitSizeOf(bitPosition);
+}
+
+uint32_t Msk::hashCode() const
+{
+    uint32_t result = ::zserio::HASH_SEED;
+    result = ::zserio::calcHashCode(result, m_value);
+    return result;
+}
+
+void Msk::write(::zserio::BitStreamWriter& out) const
+{
+    out.writeBits(m_value, UINT8_C(8));
+}
+
+::zserio::string<> Msk::toString(const ::zserio::string<>::allocator_type& allocator) const
+{
+    ::zserio::string<> result(allocator);
+    if ((*this & Msk::Values::A) == Msk::Values::A)
+    {
+        result += result.empty() ? "A" : " | A";
+    }
+    if ((*this & Msk::Values::B) == Msk::Values::B)
+    {
+        result += result.empty() ? "B" : " | B";
+    }
+    if ((*this & Msk::Values::C) == Msk::Values::C)
+    {
+        result += result.empty() ? "C" : " | C";
+    }
+
+    return ::zserio::toString<::zserio::string<>::allocator_type>(m_value, allocator) + "[" + result + "]";
+}
+
+Msk::underlying_type Msk::readValue(::zserio::BitStreamReader& in)
+{
+    return static_cast<underlying_type>(in.readBits(UINT8_C(8)));
+}
+
+} // namespace a
+
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#include <zserio/StringConvertUtil.h>
+#include <zserio/CppRuntimeException.h>
+#include <zserio/HashCodeUtil.h>
+#include <zserio/BitPositionUtil.h>
+#include <zserio/BitSizeOfCalculator.h>
+#include <zserio/BitFieldUtil.h>
+
+#include <a/Blob.h>
+
+namespace a
+{
+
+Blob::Blob(const allocator_type& allocator) noexcept :
+        m_isInitialized(false),
+        m_arr_(allocator),
+        m_s_(allocator)
+{
+}
+
+Blob::Blob(::zserio::BitStreamReader& in,
+        uint32_t n_, const allocator_type& allocator) :
+        m_n_(n_),
+        m_isInitialized(true),
+        m_arr_(readArr(in, allocator)),
+        m_s_(readS(in, allocator))
+{
+}
+
+Blob::Blob(const Blob& other) :
+        m_arr_(other.m_arr_),
+        m_s_(other.m_s_)
+{
+    if (other.m_isInitialized)
+    {
+        initialize(other.m_n_);
+    }
+    else
+    {
+        m_isInitialized = false;
+    }
+}
+
+Blob& Blob::operator=(const Blob& other)
+{
+    m_arr_ = other.m_arr_;
+    m_s_ = other.m_s_;
+    if (other.m_isInitialized)
+    {
+        initialize(other.m_n_);
+    }
+    else
+    {
+        m_isInitialized = false;
+    }
+
+    return *this;
+}
+
+Blob::Blob(Blob&& other) :
+        m_arr_(::std::move(other.m_arr_)),
+        m_s_(::std::move(other.m_s_))
+{
+    if (other.m_isInitialized)
+    {
+        initialize(other.m_n_);
+    }
+    else
+    {
+        m_isInitialized = false;
+    }
+}
+
+Blob& Blob::operator=(Blob&& other)
+{
+    m_arr_ = ::std::move(other.m_arr_);
+    m_s_ = ::std::move(other.m_s_);
+    if (other.m_isInitialized)
+    {
+        initialize(other.m_n_);
+    }
+    else
+    {
+        m_isInitialized = false;
+    }
+
+    return *this;
+}
+
+Blob::Blob(::zserio::NoInitT,
+        const Blob& other) :
+        m_isInitialized(false),
+        m_arr_(other.m_arr_),
+        m_s_(other.m_s_)
+{
+}
+
+Blob& Blob::assign(::zserio::NoInitT,
+        const Blob& other)
+{
+    m_isInitialized = false;
+    m_arr_ = other.m_arr_;
+    m_s_ = other.m_s_;
+
+    return *this;
+}
+
+Blob::Blob(::zserio::NoInitT,
+        Blob&& other) :
+        m_isInitialized(false),
+        m_arr_(::std::move(other.m_arr_)),
+        m_s_(::std::move(other.m_s_))
+{
+}
+
+Blob& Blob::assign(::zserio::NoInitT,
+        Blob&& other)
+{
+    m_isInitialized = false;
+    m_arr_ = ::std::move(other.m_arr_);
+    m_s_ = ::std::move(other.m_s_);
+
+    return *this;
+}
+
+Blob::Blob(::zserio::PropagateAllocatorT,
+        const Blob& other, const allocator_type& allocator) :
+        m_arr_(::zserio::allocatorPropagatingCopy(other.m_arr_, allocator)),
+        m_s_(::zserio::allocatorPropagatingCopy(other.m_s_, allocator))
+{
+    if (other.m_isInitialized)
+    {
+        initialize(other.m_n_);
+    }
+    else
+    {
+        m_isInitialized = false;
+    }
+}
+
+Blob::Blob(::zserio::PropagateAllocatorT, ::zserio::NoInitT,
+        const Blob& other, const allocator_type& allocator) :
+        m_isInitialized(false),
+        m_arr_(::zserio::allocatorPropagatingCopy(other.m_arr_, allocator)),
+        m_s_(::zserio::allocatorPropagatingCopy(other.m_s_, allocator))
+{
+}
+
+void Blob::initialize(
+        uint32_t n_)
+{
+    m_n_ = n_;
+    m_isInitialized = true;
+}
+
+bool Blob::isInitialized() const
+{
+    return m_isInitialized;
+}
+
+uint32_t Blob::getN() const
+{
+    if (!m_isInitialized)
+    {
+        throw ::zserio::CppRuntimeException("Parameter 'n' of compound 'Blob' is not initialized!");
+    }
+
+    return m_n_;
+}
+
+::zserio::vector<uint8_t>& Blob::getArr()
+{
+    return m_arr_.getRawArray();
+}
+
+const ::zserio::vector<uint8_t>& Blob::getArr() const
+{
+    return m_arr_.getRawArray();
+}
+
+void Blob::setArr(const ::zserio::vector<uint8_t>& arr_)
+{
+    m_arr_ = ZserioArrayType_arr(arr_);
+}
+
+void Blob::setArr(::zserio::vector<uint8_t>&& arr_)
+{
+    m_arr_ = ZserioArrayType_arr(std::move(arr_));
+}
+
+::zserio::string<>& Blob::getS()
+{
+    return m_s_;
+}
+
+const ::zserio::string<>& Blob::getS() const
+{
+    return m_s_;
+}
+
+void Blob::setS(const ::zserio::string<>& s_)
+{
+    m_s_ = s_;
+}
+
+void Blob::setS(::zserio::string<>&& s_)
+{
+    m_s_ = ::std::move(s_);
+}
+
+size_t Blob::bitSizeOf(size_t bitPosition) const
+{
+    size_t endBitPosition = bitPosition;
+
+    endBitPosition += m_arr_.bitSizeOf(endBitPosition);
+    endBitPosition += ::zserio::bitSizeOfString(m_s_);
+
+    return endBitPosition - bitPosition;
+}
+
+size_t Blob::initializeOffsets(size_t bitPosition)
+{
+    size_t endBitPosition = bitPosition;
+
+    endBitPosition = m_arr_.initializeOffsets(endBitPosition);
+    endBitPosition += ::zserio::bitSizeOfString(m_s_);
+
+    return endBitPosition;
+}
+
+bool Blob::operator==(const Blob& other) const
+{
+    if (this != &other)
+    {
+        return
+                (getN() == other.getN()) &&
+                (m_arr_ == other.m_arr_) &&
+                (m_s_ == other.m_s_);
+    }
+
+    return true;
+}
+
+bool Blob::operator<(const Blob& other) const
+{
+    if (getN() < other.getN())
+    {
+        return true;
+    }
+    if (other.getN() < getN())
+    {
+        return false;
+    }
+
+    if (m_arr_ < other.m_arr_)
+    {
+        return true;
+    }
+    if (other.m_arr_ < m_arr_)
+    {
+        return false;
+    }
+
+    if (m_s_ < other.m_s_)
+    {
+        return true;
+    }
+    if (other.m_s_ < m_s_)
+    {
+        return false;
+    }
+
+    return false;
+}
+
+uint32_t Blob::hashCode() const
+{
+    uint32_t result = ::zserio::HASH_SEED;
+
+    result = ::zserio::calcHashCode(result, getN());
+    result = ::zserio::calcHashCode(result, m_arr_);
+    result = ::zserio::calcHashCode(result, m_s_);
+
+    return result;
+}
+
+void Blob::write(::zserio::BitStreamWriter& out) const
+{
+    // check array length
+    if (m_arr_.getRawArray().size() != static_cast<size_t>(getN()))
+    {
+        throw ::zserio::CppRuntimeException("Write: Wrong array length for field Blob.arr: ") <<
+                m_arr_.getRawArray().size() << " != " <<
+                static_cast<size_t>(getN()) << "!";
+    }
+    m_arr_.write(out);
+
+    out.writeString(m_s_);
+}
+
+Blob::ZserioArrayType_arr Blob::readArr(::zserio::BitStreamReader& in,
+        const allocator_type& allocator)
+{
+    ZserioArrayType_arr readField(allocator);
+    readField.read(in, static_cast<size_t>(getN()));
+
+    return readField;
+}
+
+::zserio::string<> Blob::readS(::zserio::BitStreamReader& in,
+        const allocator_type& allocator)
+{
+    return static_cast<::zserio::string<>>(in.readString(allocator));
+}
+
+
+} // namespace a
+
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#include <zserio/StringConvertUtil.h>
+#include <zserio/CppRuntimeException.h>
+#include <zserio/HashCodeUtil.h>
+#include <zserio/BitPositionUtil.h>
+#include <zserio/BitSizeOfCalculator.h>
+#include <zserio/BitFieldUtil.h>
+
+#include <a/Simple.h>
+
+namespace a
+{
+
+Simple::Simple(const allocator_type&) noexcept :
+        m_x_(int32_t())
+{
+}
+
+Simple::Simple(::zserio::BitStreamReader& in, const allocator_type&) :
+        m_x_(readX(in))
+{
+}
+
+Simple::Simple(::zserio::PropagateAllocatorT,
+        const Simple& other, const allocator_type& allocator) :
+        m_x_(::zserio::allocatorPropagatingCopy(other.m_x_, allocator))
+{
+}
+
+int32_t Simple::getX() const
+{
+    return m_x_;
+}
+
+void Simple::setX(int32_t x_)
+{
+    m_x_ = x_;
+}
+
+size_t Simple::bitSizeOf(size_t bitPosition) const
+{
+    size_t endBitPosition = bitPosition;
+
+    endBitPosition += UINT8_C(32);
+
+    return endBitPosition - bitPosition;
+}
+
+size_t Simple::initializeOffsets(size_t bitPosition)
+{
+    size_t endBitPosition = bitPosition;
+
+    endBitPosition += UINT8_C(32);
+
+    return endBitPosition;
+}
+
+bool Simple::operator==(const Simple& other) const
+{
+    if (this != &other)
+    {
+        return
+                (m_x_ == other.m_x_);
+    }
+
+    return true;
+}
+
+bool Simple::operator<(const Simple& other) const
+{
+    if (m_x_ < other.m_x_)
+    {
+        return true;
+    }
+    if (other.m_x_ < m_x_)
+    {
+        return false;
+    }
+
+    return false;
+}
+
+uint32_t Simple::hashCode() const
+{
+    uint32_t result = ::zserio::HASH_SEED;
+
+    result = ::zserio::calcHashCode(result, m_x_);
+
+    return result;
+}
+
+void Simple::write(::zserio::BitStreamWriter& out) const
+{
+    out.writeSignedBits(m_x_, UINT8_C(32));
+}
+
+int32_t Simple::readX(::zserio::BitStreamReader& in)
+{
+    return static_cast<int32_t>(in.readSignedBits(UINT8_C(32)));
+}
+
+
+} // namespace a
+
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#include <zserio/SqliteException.h>
+#include <zserio/ValidationSqliteUtil.h>
+
+#include <a/Db.h>
+
+namespace a
+{
+
+Db::Db(const ::zserio::string<>& dbFileName, const TRelocationMap& tableToDbFileNameRelocationMap,
+        const allocator_type& allocator) :
+        ::zserio::AllocatorHolder<allocator_type>(allocator),
+        m_tableToAttachedDbNameRelocationMap(allocator)
+{
+    sqlite3 *internalConnection = nullptr;
+    const int sqliteOpenMode = SQLITE_OPEN_URI | SQLITE_OPEN_CREATE | SQLITE_OPEN_READWRITE;
+    const int sqliteResult = sqlite3_open_v2(dbFileName.c_str(), &internalConnection, sqliteOpenMode, nullptr);
+    m_db.reset(internalConnection, ::zserio::SqliteConnection::INTERNAL_CONNECTION);
+    if (sqliteResult != SQLITE_OK)
+    {
+        throw ::zserio::SqliteException("Db::Db: can't open DB ") << dbFileName.c_str() << ": " <<
+                ::zserio::SqliteErrorCode(sqliteResult);
+    }
+
+    ::std::map<::zserio::StringView, ::zserio::string<>> dbFileNameToAttachedDbNameMap(
+            get_allocator_ref());
+    for (const auto& relocation : tableToDbFileNameRelocationMap)
+    {
+        const ::zserio::string<>& tableName = relocation.first;
+        const ::zserio::string<>& fileName = relocation.second;
+        auto attachedDbIt = dbFileNameToAttachedDbNameMap.find(fileName);
+        if (attachedDbIt == dbFileNameToAttachedDbNameMap.end())
+        {
+            ::zserio::string<> attachedDbName =
+                    ::zserio::stringViewToString(databaseName(), get_allocator_ref()) + "_" + tableName;
+            attachDatabase(fileName, attachedDbName);
+            attachedDbIt = dbFileNameToAttachedDbNameMap.emplace(fileName, ::std::move(attachedDbName)).first;
+        }
+        auto emplaceResult = m_tableToAttachedDbNameRelocationMap.emplace(
+                ::zserio::string<>(tableName, get_allocator_ref()),
+                ::zserio::string<>(attachedDbIt->second, get_allocator_ref()));
+        if (!emplaceResult.second)
+        {
+            throw ::zserio::SqliteException("Db::Db: can't insert ") << tableName.c_str() << 
+                    " into Database Relocation Map!";
+        }
+    }
+
+    initTables();
+}
+
+Db::Db(const ::zserio::string<>& dbFileName, const allocator_type& allocator) :
+        Db(dbFileName, TRelocationMap(allocator), allocator)
+{}
+
+Db::Db(sqlite3* externalConnection, const TRelocationMap& tableToAttachedDbNameRelocationMap,
+        const allocator_type& allocator) :
+        ::zserio::AllocatorHolder<allocator_type>(allocator),
+        m_tableToAttachedDbNameRelocationMap(tableToAttachedDbNameRelocationMap, allocator)
+{
+    m_db.reset(externalConnection, ::zserio::SqliteConnection::EXTERNAL_CONNECTION);
+    initTables();
+}
+
+Db::Db(sqlite3* externalConnection, const allocator_type& allocator) :
+        Db(externalConnection, TRelocationMap(allocator), allocator)
+{}
+
+Db::~Db()
+{
+    detachDatabases();
+}
+
+::zserio::SqliteConnection& Db::connection() noexcept
+{
+    return m_db;
+}
+
+::a::Tab& Db::getT1() noexcept
+{
+    return *m_t1_;
+}
+
+::a::Tab& Db::getT2() noexcept
+{
+    return *m_t2_;
+}
+
+::a::Worowid& Db::getW() noexcept
+{
+    return *m_w_;
+}
+
+::a::Fts& Db::getFts() noexcept
+{
+    return *m_fts_;
+}
+
+::a::Tpl_string& Db::getTs() noexcept
+{
+    return *m_ts_;
+}
+
+void Db::createSchema()
+{
+    const bool wasTransactionStarted = m_db.startTransaction();
+
+    m_t1_->createTable();
+    m_t2_->createTable();
+    m_w_->createTable();
+    m_fts_->createTable();
+    m_ts_->createTable();
+
+    m_db.endTransaction(wasTransactionStarted);
+}
+
+void Db::createSchema(const ::std::set<::zserio::string<>>& withoutRowIdTableNamesBlackList)
+{
+    const bool wasTransactionStarted = m_db.startTransaction();
+
+    m_t1_->createTable();
+    m_t2_->createTable();
+    if (withoutRowIdTableNamesBlackList.find(::zserio::stringViewToString(
+            tableNameW(), get_allocator_ref())) != withoutRowIdTableNamesBlackList.end())
+    {
+        m_w_->createOrdinaryRowIdTable();
+    }
+    else
+    {
+        m_w_->createTable();
+    }
+    m_fts_->createTable();
+    m_ts_->createTable();
+
+    m_db.endTransaction(wasTransactionStarted);
+}
+
+void Db::deleteSchema()
+{
+    const bool wasTransactionStarted = m_db.startTransaction();
+
+    m_t1_->deleteTable();
+    m_t2_->deleteTable();
+    m_w_->deleteTable();
+    m_fts_->deleteTable();
+    m_ts_->deleteTable();
+
+    m_db.endTransaction(wasTransactionStarted);
+}
+
+void Db::validate(::zserio::IValidationObserver& validationObserver, IParameterProvider& parameterProvider)
+{
+    validationObserver.beginDatabase(5);
+    bool continueValidation = true;
+    size_t numberOfValidatedTables = 0;
+
+    if (m_t1_->validate(validationObserver,
+            parameterProvider.getT1ParameterProvider(), continueValidation))
+    {
+        ++numberOfValidatedTables;
+    }
+    if (continueValidation && m_t2_->validate(validationObserver,
+            parameterProvider.getT2ParameterProvider(), continueValidation))
+    {
+        ++numberOfValidatedTables;
+    }
+    if (continueValidation && m_w_->validate(validationObserver, continueValidation))
+    {
+        ++numberOfValidatedTables;
+    }
+    if (continueValidation && m_fts_->validate(validationObserver, continueValidation))
+    {
+        ++numberOfValidatedTables;
+    }
+    if (continueValidation && m_ts_->validate(validationObserver, continueValidation))
+    {
+        ++numberOfValidatedTables;
+    }
+
+    validationObserver.endDatabase(numberOfValidatedTables);
+}
+
+::zserio::StringView Db::databaseName() noexcept
+{
+    return ::zserio::makeStringView("Db");
+}
+
+::zserio::StringView Db::tableNameT1() noexcept
+{
+    return ::zserio::makeStringView("t1");
+}
+
+::zserio::StringView Db::tableNameT2() noexcept
+{
+    return ::zserio::makeStringView("t2");
+}
+
+::zserio::StringView Db::tableNameW() noexcept
+{
+    return ::zserio::makeStringView("w");
+}
+
+::zserio::StringView Db::tableNameFts() noexcept
+{
+    return ::zserio::makeStringView("fts");
+}
+
+::zserio::StringView Db::tableNameTs() noexcept
+{
+    return ::zserio::makeStringView("ts");
+}
+
+const ::std::array<::zserio::StringView, 5>& Db::tableNames() noexcept
+{
+    static const ::std::array<::zserio::StringView, 5> names =
+    {
+        tableNameT1(),
+        tableNameT2(),
+        tableNameW(),
+        tableNameFts(),
+        tableNameTs()
+    };
+
+    return names;
+}
+
+void Db::initTables()
+{
+    static const ::zserio::StringView EMPTY_STR = ::zserio::StringView();
+    auto relocationIt = m_tableToAttachedDbNameRelocationMap.find(
+            ::zserio::stringViewToString(tableNameT1(), get_allocator_ref()));
+    m_t1_ = ::zserio::allocate_unique<::a::Tab>(
+            get_allocator_ref(), this->m_db, tableNameT1(),
+            relocationIt != m_tableToAttachedDbNameRelocationMap.end() ? relocationIt->second : EMPTY_STR,
+            get_allocator_ref());
+
+    relocationIt = m_tableToAttachedDbNameRelocationMap.find(
+            ::zserio::stringViewToString(tableNameT2(), get_allocator_ref()));
+    m_t2_ = ::zserio::allocate_unique<::a::Tab>(
+            get_allocator_ref(), this->m_db, tableNameT2(),
+            relocationIt != m_tableToAttachedDbNameRelocationMap.end() ? relocationIt->second : EMPTY_STR,
+            get_allocator_ref());
+
+    relocationIt = m_tableToAttachedDbNameRelocationMap.find(
+            ::zserio::stringViewToString(tableNameW(), get_allocator_ref()));
+    m_w_ = ::zserio::allocate_unique<::a::Worowid>(
+            get_allocator_ref(), this->m_db, tableNameW(),
+            relocationIt != m_tableToAttachedDbNameRelocationMap.end() ? relocationIt->second : EMPTY_STR,
+            get_allocator_ref());
+
+    relocationIt = m_tableToAttachedDbNameRelocationMap.find(
+            ::zserio::stringViewToString(tableNameFts(), get_allocator_ref()));
+    m_fts_ = ::zserio::allocate_unique<::a::Fts>(
+            get_allocator_ref(), this->m_db, tableNameFts(),
+            relocationIt != m_tableToAttachedDbNameRelocationMap.end() ? relocationIt->second : EMPTY_STR,
+            get_allocator_ref());
+
+    relocationIt = m_tableToAttachedDbNameRelocationMap.find(
+            ::zserio::stringViewToString(tableNameTs(), get_allocator_ref()));
+    m_ts_ = ::zserio::allocate_unique<::a::Tpl_string>(
+            get_allocator_ref(), this->m_db, tableNameTs(),
+            relocationIt != m_tableToAttachedDbNameRelocationMap.end() ? relocationIt->second : EMPTY_STR,
+            get_allocator_ref());
+}
+
+void Db::attachDatabase(::zserio::StringView fileName, ::zserio::StringView attachedDbName)
+{
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    sqlQuery += "ATTACH DATABASE '";
+    sqlQuery += fileName;
+    sqlQuery += "' AS ";
+    sqlQuery += attachedDbName;
+
+    m_db.executeUpdate(sqlQuery);
+
+    m_attachedDbList.push_back(::zserio::stringViewToString(attachedDbName, get_allocator_ref()));
+}
+
+void Db::detachDatabases()
+{
+    for (const auto& attachedDb : m_attachedDbList)
+    {
+        try
+        {
+            ::zserio::string<> sqlQuery(get_allocator_ref());
+            sqlQuery += "DETACH DATABASE ";
+            sqlQuery += attachedDb;
+            m_db.executeUpdate(sqlQuery);
+        }
+        catch (const ::zserio::SqliteException&)
+        {
+            // ignore since we have no logging sub-system and we need to prevent exception in SQLDatabase destructor
+        }
+    }
+    m_attachedDbList.clear();
+}
+
+} // namespace a
+
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#include <zserio/CppRuntimeException.h>
+#include <zserio/SqliteException.h>
+#include <zserio/BitStreamReader.h>
+#include <algorithm>
+#include <zserio/BitFieldUtil.h>
+#include <zserio/BitStreamWriter.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/BitBuffer.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/StringView.h>
+#include <zserio/Types.h>
+
+#include <a/Tab.h>
+
+
+namespace a
+{
+
+constexpr ::std::array<::zserio::StringView, 13> Tab::columnNames;
+
+Tab::Tab(::zserio::SqliteConnection& db, ::zserio::StringView tableName,
+        ::zserio::StringView attachedDbName, const allocator_type& allocator) :
+        ::zserio::AllocatorHolder<allocator_type>(allocator),
+        m_db(db), m_name(tableName), m_attachedDbName(attachedDbName)
+{
+}
+
+Tab::Tab(::zserio::SqliteConnection& db, ::zserio::StringView tableName,
+        const allocator_type& allocator) :
+        Tab(db, tableName, ::zserio::StringView(), allocator)
+{
+}
+
+void Tab::createTable()
+{
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    appendCreateTableToQuery(sqlQuery);
+    m_db.executeUpdate(sqlQuery);
+}
+
+void Tab::deleteTable()
+{
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    sqlQuery += "DROP TABLE ";
+    appendTableNameToQuery(sqlQuery);
+    m_db.executeUpdate(sqlQuery);
+}
+
+Tab::Reader Tab::createReader(IParameterProvider& parameterProvider, ::zserio::StringView condition) const
+{
+    return createReader(parameterProvider, {}, condition);
+}
+
+Tab::Reader Tab::createReader(IParameterProvider& parameterProvider, ::zserio::Span<const ::zserio::string<>> columns,
+        ::zserio::StringView condition) const
+{
+    const ::std::array<bool, 13> columnsMapping = createColumnsMapping(columns);
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    sqlQuery += "SELECT ";
+    appendColumnsToQuery(sqlQuery, columnsMapping, ColumnFormat::NAME);
+    sqlQuery += " FROM ";
+    appendTableNameToQuery(sqlQuery);
+    if (!condition.empty())
+    {
+        sqlQuery += " WHERE ";
+        sqlQuery += condition;
+    }
+
+    return Reader(m_db, parameterProvider, columnsMapping, sqlQuery, get_allocator_ref());
+}
+
+Tab::Reader::Reader(::zserio::SqliteConnection& db, IParameterProvider& parameterProvider, const ::std::array<bool, 13>& columnsMapping,
+::zserio::StringView sqlQuery, const allocator_type& allocator) :
+        ::zserio::AllocatorHolder<allocator_type>(allocator),
+        m_parameterProvider(parameterProvider),
+        m_columnsMapping(columnsMapping),
+        m_stmt(db.prepareStatement(sqlQuery))
+{
+    makeStep();
+}
+
+bool Tab::Reader::hasNext() const noexcept
+{
+    return m_lastResult == SQLITE_ROW;
+}
+
+Tab::Row Tab::Reader::next()
+{
+    if (!hasNext())
+    {
+        throw ::zserio::SqliteException("Table::Reader::next: next row is not available: ") <<
+                ::zserio::SqliteErrorCode(m_lastResult);
+    }
+
+    Row row;
+    int index = 0;
+    // field id
+    if (m_columnsMapping[0])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const int64_t intValue = sqlite3_column_int64(m_stmt.get(), index);
+            row.setId(static_cast<int32_t>(intValue));
+        }
+        ++index;
+    }
+    // field big
+    if (m_columnsMapping[1])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const int64_t intValue = sqlite3_column_int64(m_stmt.get(), index);
+            row.setBig(static_cast<uint64_t>(intValue));
+        }
+        ++index;
+    }
+    // field name
+    if (m_columnsMapping[2])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const unsigned char* textValue = sqlite3_column_text(m_stmt.get(), index);
+            row.setName(::zserio::string<>(
+                    reinterpret_cast<const char*>(textValue), get_allocator_ref()));
+        }
+        ++index;
+    }
+    // field flag
+    if (m_columnsMapping[3])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const int64_t intValue = sqlite3_column_int64(m_stmt.get(), index);
+            row.setFlag(intValue != 0);
+        }
+        ++index;
+    }
+    // field f
+    if (m_columnsMapping[4])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const double doubleValue = sqlite3_column_double(m_stmt.get(), index);
+            row.setF(static_cast<float>(doubleValue));
+        }
+        ++index;
+    }
+    // field g
+    if (m_columnsMapping[5])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const double doubleValue = sqlite3_column_double(m_stmt.get(), index);
+            row.setG(static_cast<double>(doubleValue));
+        }
+        ++index;
+    }
+    // field col
+    if (m_columnsMapping[6])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const int64_t intValue = sqlite3_column_int64(m_stmt.get(), index);
+            const ::a::Col enumValue = ::zserio::valueToEnum<::a::Col>(static_cast<uint8_t>(intValue));
+            row.setCol(enumValue);
+        }
+        ++index;
+    }
+    // field msk
+    if (m_columnsMapping[7])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const int64_t intValue = sqlite3_column_int64(m_stmt.get(), index);
+            const ::a::Msk bitmaskValue = ::a::Msk(static_cast<uint8_t>(intValue));
+            row.setMsk(bitmaskValue);
+        }
+        ++index;
+    }
+    // field len
+    if (m_columnsMapping[8])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const int64_t intValue = sqlite3_column_int64(m_stmt.get(), index);
+            row.setLen(static_cast<int32_t>(intValue));
+        }
+        ++index;
+    }
+    // field b1
+    if (m_columnsMapping[9])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const void* blobData = sqlite3_column_blob(m_stmt.get(), 9);
+            const int blobDataLength = sqlite3_column_bytes(m_stmt.get(), 9);
+            ::zserio::BitStreamReader reader(static_cast<const uint8_t*>(blobData),
+                    static_cast<size_t>(blobDataLength));
+        const uint32_t _n = row.getLen();
+        ::a::Blob blob(reader, _n, get_allocator_ref());
+            row.setB1(::std::move(blob));
+        }
+        ++index;
+    }
+    // field b2
+    if (m_columnsMapping[10])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const void* blobData = sqlite3_column_blob(m_stmt.get(), 10);
+            const int blobDataLength = sqlite3_column_bytes(m_stmt.get(), 10);
+            ::zserio::BitStreamReader reader(static_cast<const uint8_t*>(blobData),
+                    static_cast<size_t>(blobDataLength));
+        const uint32_t _n = m_parameterProvider.getCnt(row);
+        ::a::Blob blob(reader, _n, get_allocator_ref());
+            row.setB2(::std::move(blob));
+        }
+        ++index;
+    }
+    // field s
+    if (m_columnsMapping[11])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const void* blobData = sqlite3_column_blob(m_stmt.get(), 11);
+            const int blobDataLength = sqlite3_column_bytes(m_stmt.get(), 11);
+            ::zserio::BitStreamReader reader(static_cast<const uint8_t*>(blobData),
+                    static_cast<size_t>(blobDataLength));
+        ::a::Simple blob(reader, get_allocator_ref());
+            row.setS(::std::move(blob));
+        }
+        ++index;
+    }
+    // field u
+    if (m_columnsMapping[12])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const int64_t intValue = sqlite3_column_int64(m_stmt.get(), index);
+            row.setU(static_cast<uint64_t>(intValue));
+        }
+        ++index;
+    }
+
+    makeStep();
+
+    return row;
+}
+
+void Tab::Reader::makeStep()
+{
+    m_lastResult = sqlite3_step(m_stmt.get());
+    if (m_lastResult != SQLITE_ROW && m_lastResult != SQLITE_DONE)
+    {
+        throw ::zserio::SqliteException("Tab::Read: sqlite3_step() failed: ") <<
+                ::zserio::SqliteErrorCode(m_lastResult);
+    }
+}
+
+void Tab::write(IParameterProvider& parameterProvider, ::zserio::Span<Row> rows,
+        ::zserio::Span<const ::zserio::string<>> columns)
+{
+    // assemble sql query
+    const ::std::array<bool, 13> columnsMapping = createColumnsMapping(columns);
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    sqlQuery += "INSERT INTO ";
+    appendTableNameToQuery(sqlQuery);
+    sqlQuery += "(";
+    appendColumnsToQuery(sqlQuery, columnsMapping, ColumnFormat::NAME);
+    sqlQuery += ") VALUES (";
+    appendColumnsToQuery(sqlQuery, columnsMapping, ColumnFormat::SQL_PARAMETER);
+    sqlQuery += ");";
+
+    // write rows
+    const bool wasTransactionStarted = m_db.startTransaction();
+    ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> statement(m_db.prepareStatement(sqlQuery));
+
+    for (Row& row : rows)
+    {
+        writeRow(parameterProvider, row, columnsMapping, *statement);
+        int result = sqlite3_step(statement.get());
+        if (result != SQLITE_DONE)
+        {
+            throw ::zserio::SqliteException("Write: sqlite3_step() failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+
+        result = sqlite3_clear_bindings(statement.get());
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Write: sqlite3_clear_bindings() failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+
+        result = sqlite3_reset(statement.get());
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Write: sqlite3_reset() failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+    }
+
+    m_db.endTransaction(wasTransactionStarted);
+}
+
+void Tab::update(IParameterProvider& parameterProvider, Row& row, ::zserio::StringView whereCondition)
+{
+    update(parameterProvider, row, {}, whereCondition);
+}
+
+void Tab::update(IParameterProvider& parameterProvider, Row& row,
+        ::zserio::Span<const ::zserio::string<>> columns, ::zserio::StringView whereCondition)
+{
+    // assemble sql query
+    const ::std::array<bool, 13> columnsMapping = createColumnsMapping(columns);
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    sqlQuery += "UPDATE ";
+    appendTableNameToQuery(sqlQuery);
+    sqlQuery += " SET ";
+    appendColumnsToQuery(sqlQuery, columnsMapping, ColumnFormat::SQL_UPDATE);
+    sqlQuery += " WHERE ";
+    sqlQuery += whereCondition;
+
+    // update row
+    ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> statement(m_db.prepareStatement(sqlQuery));
+    writeRow(parameterProvider, row, columnsMapping, *statement);
+    const int result = sqlite3_step(statement.get());
+    if (result != SQLITE_DONE)
+    {
+        throw ::zserio::SqliteException("Update: sqlite3_step() failed: ") << ::zserio::SqliteErrorCode(result);
+    }
+}
+
+bool Tab::validate(::zserio::IValidationObserver& validationObserver, IParameterProvider& parameterProvider, bool& continueValidation)
+{
+    const size_t numberOfRows = ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::getNumberOfTableRows(
+            m_db, m_attachedDbName, m_name, get_allocator_ref());
+    continueValidation = true;
+    if (!validationObserver.beginTable(m_name, numberOfRows))
+    {
+        return false;
+    }
+
+    size_t numberOfValidatedRows = 0;
+    if (validateSchema(validationObserver))
+    {
+        ::zserio::string<> sqlQuery{get_allocator_ref()};
+        sqlQuery += "SELECT ";
+        sqlQuery += "id, ";
+        sqlQuery += "big, ";
+        sqlQuery += "name, ";
+        sqlQuery += "flag, ";
+        sqlQuery += "f, ";
+        sqlQuery += "g, ";
+        sqlQuery += "col, ";
+        sqlQuery += "msk, ";
+        sqlQuery += "len, ";
+        sqlQuery += "b1, ";
+        sqlQuery += "b2, ";
+        sqlQuery += "s, ";
+        sqlQuery += "u";
+        sqlQuery += " FROM ";
+        appendTableNameToQuery(sqlQuery);
+        ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> statement(m_db.prepareStatement(sqlQuery));
+        int result = SQLITE_OK;
+        bool continueTableValidation = true;
+        while ((result = sqlite3_step(statement.get())) == SQLITE_ROW && continueTableValidation)
+        {
+            ++numberOfValidatedRows;
+
+            if (!validateTypeId(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+            if (!validateTypeBig(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+            if (!validateTypeName(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+            if (!validateTypeFlag(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+            if (!validateTypeF(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+            if (!validateTypeG(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+            if (!validateTypeCol(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+            if (!validateTypeMsk(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+            if (!validateTypeLen(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+            if (!validateTypeB1(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+            if (!validateTypeB2(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+            if (!validateTypeS(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+            if (!validateTypeU(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+
+            Row row;
+            if (!validateFieldId(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+            if (!validateFieldBig(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+            if (!validateFieldName(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+            if (!validateFieldFlag(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+            if (!validateFieldF(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+            if (!validateFieldG(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+            if (!validateFieldCol(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+            if (!validateFieldMsk(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+            if (!validateFieldLen(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+            if (!validateBlobB1(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+            if (!validateBlobB2(validationObserver, statement.get(), row, parameterProvider, continueTableValidation))
+            {
+                continue;
+            }
+            if (!validateBlobS(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+            if (!validateFieldU(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+        }
+        if (result != SQLITE_DONE && (continueTableValidation || result != SQLITE_ROW))
+        {
+            throw ::zserio::SqliteException("Validate: sqlite3_step() failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+    }
+
+    continueValidation = validationObserver.endTable(m_name, numberOfValidatedRows);
+
+    return true;
+}
+
+bool Tab::validateSchema(::zserio::IValidationObserver& validationObserver)
+{
+    ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema tableSchema(
+            get_allocator_ref());
+    ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::getTableSchema(
+            m_db, m_attachedDbName, m_name, tableSchema, get_allocator_ref());
+
+    bool result = true;
+    bool continueValidation = true;
+
+    if (!validateColumnId(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (continueValidation && !validateColumnBig(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (continueValidation && !validateColumnName(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (continueValidation && !validateColumnFlag(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (continueValidation && !validateColumnF(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (continueValidation && !validateColumnG(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (continueValidation && !validateColumnCol(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (continueValidation && !validateColumnMsk(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (continueValidation && !validateColumnLen(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (continueValidation && !validateColumnB1(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (continueValidation && !validateColumnB2(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (continueValidation && !validateColumnS(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (continueValidation && !validateColumnU(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (!tableSchema.empty())
+    {
+        for (auto it = tableSchema.begin(); it != tableSchema.end() && continueValidation; ++it)
+        {
+            const auto& columnName = it->first;
+            const auto& columnType = it->second.type;
+            ::zserio::string<> errorMessage = ::zserio::string<>(
+                    "superfluous column ", get_allocator_ref());
+            errorMessage += m_name;
+            errorMessage += ".";
+            errorMessage += columnName;
+            errorMessage += " of type ";
+            errorMessage += columnType;
+            errorMessage += " encountered";
+            continueValidation = validationObserver.reportError(m_name, columnName,
+                    ::zserio::Span<::zserio::StringView>(),
+                    ::zserio::IValidationObserver::COLUMN_SUPERFLUOUS,
+                    errorMessage);
+        }
+        result = false;
+    }
+
+    return result;
+}
+
+bool Tab::validateColumnId(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("id", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("id"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Tab.id is missing"));
+        return false;
+    }
+
+    const auto column = search->second;
+    (void)tableSchema.erase(search);
+
+    if (column.type != "INTEGER")
+    {
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "column Tab.id has type '", get_allocator_ref());
+        errorMessage += column.type;
+        errorMessage += "' but 'INTEGER' is expected";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("id"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_TYPE, errorMessage);
+        return false;
+    }
+
+    if (!column.isNotNull)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("id"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.id is NULL-able, "
+                        "but the column is expected to be NOT NULL-able"));
+        return false;
+    }
+
+    if (!column.isPrimaryKey)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("id"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.id is not primary key, "
+                        "but the column is expected to be primary key"));
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateColumnBig(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("big", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("big"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Tab.big is missing"));
+        return false;
+    }
+
+    const auto column = search->second;
+    (void)tableSchema.erase(search);
+
+    if (column.type != "INTEGER")
+    {
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "column Tab.big has type '", get_allocator_ref());
+        errorMessage += column.type;
+        errorMessage += "' but 'INTEGER' is expected";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("big"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_TYPE, errorMessage);
+        return false;
+    }
+
+    if (column.isNotNull)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("big"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.big is NOT NULL-able, "
+                        "but the column is expected to be NULL-able"));
+        return false;
+    }
+
+    if (column.isPrimaryKey)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("big"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.big is primary key, "
+                        "but the column is expected not to be primary key"));
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateColumnName(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("name", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("name"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Tab.name is missing"));
+        return false;
+    }
+
+    const auto column = search->second;
+    (void)tableSchema.erase(search);
+
+    if (column.type != "TEXT")
+    {
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "column Tab.name has type '", get_allocator_ref());
+        errorMessage += column.type;
+        errorMessage += "' but 'TEXT' is expected";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("name"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_TYPE, errorMessage);
+        return false;
+    }
+
+    if (column.isNotNull)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("name"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.name is NOT NULL-able, "
+                        "but the column is expected to be NULL-able"));
+        return false;
+    }
+
+    if (column.isPrimaryKey)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("name"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.name is primary key, "
+                        "but the column is expected not to be primary key"));
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateColumnFlag(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("flag", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("flag"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Tab.flag is missing"));
+        return false;
+    }
+
+    const auto column = search->second;
+    (void)tableSchema.erase(search);
+
+    if (column.type != "INTEGER")
+    {
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "column Tab.flag has type '", get_allocator_ref());
+        errorMessage += column.type;
+        errorMessage += "' but 'INTEGER' is expected";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("flag"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_TYPE, errorMessage);
+        return false;
+    }
+
+    if (column.isNotNull)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("flag"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.flag is NOT NULL-able, "
+                        "but the column is expected to be NULL-able"));
+        return false;
+    }
+
+    if (column.isPrimaryKey)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("flag"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.flag is primary key, "
+                        "but the column is expected not to be primary key"));
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateColumnF(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("f", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("f"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Tab.f is missing"));
+        return false;
+    }
+
+    const auto column = search->second;
+    (void)tableSchema.erase(search);
+
+    if (column.type != "REAL")
+    {
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "column Tab.f has type '", get_allocator_ref());
+        errorMessage += column.type;
+        errorMessage += "' but 'REAL' is expected";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("f"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_TYPE, errorMessage);
+        return false;
+    }
+
+    if (column.isNotNull)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("f"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.f is NOT NULL-able, "
+                        "but the column is expected to be NULL-able"));
+        return false;
+    }
+
+    if (column.isPrimaryKey)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("f"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.f is primary key, "
+                        "but the column is expected not to be primary key"));
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateColumnG(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("g", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("g"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Tab.g is missing"));
+        return false;
+    }
+
+    const auto column = search->second;
+    (void)tableSchema.erase(search);
+
+    if (column.type != "REAL")
+    {
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "column Tab.g has type '", get_allocator_ref());
+        errorMessage += column.type;
+        errorMessage += "' but 'REAL' is expected";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("g"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_TYPE, errorMessage);
+        return false;
+    }
+
+    if (column.isNotNull)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("g"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.g is NOT NULL-able, "
+                        "but the column is expected to be NULL-able"));
+        return false;
+    }
+
+    if (column.isPrimaryKey)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("g"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.g is primary key, "
+                        "but the column is expected not to be primary key"));
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateColumnCol(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("col", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("col"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Tab.col is missing"));
+        return false;
+    }
+
+    const auto column = search->second;
+    (void)tableSchema.erase(search);
+
+    if (column.type != "INTEGER")
+    {
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "column Tab.col has type '", get_allocator_ref());
+        errorMessage += column.type;
+        errorMessage += "' but 'INTEGER' is expected";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("col"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_TYPE, errorMessage);
+        return false;
+    }
+
+    if (column.isNotNull)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("col"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.col is NOT NULL-able, "
+                        "but the column is expected to be NULL-able"));
+        return false;
+    }
+
+    if (column.isPrimaryKey)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("col"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.col is primary key, "
+                        "but the column is expected not to be primary key"));
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateColumnMsk(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("msk", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("msk"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Tab.msk is missing"));
+        return false;
+    }
+
+    const auto column = search->second;
+    (void)tableSchema.erase(search);
+
+    if (column.type != "INTEGER")
+    {
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "column Tab.msk has type '", get_allocator_ref());
+        errorMessage += column.type;
+        errorMessage += "' but 'INTEGER' is expected";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("msk"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_TYPE, errorMessage);
+        return false;
+    }
+
+    if (column.isNotNull)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("msk"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.msk is NOT NULL-able, "
+                        "but the column is expected to be NULL-able"));
+        return false;
+    }
+
+    if (column.isPrimaryKey)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("msk"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.msk is primary key, "
+                        "but the column is expected not to be primary key"));
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateColumnLen(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("len", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("len"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Tab.len is missing"));
+        return false;
+    }
+
+    const auto column = search->second;
+    (void)tableSchema.erase(search);
+
+    if (column.type != "INTEGER")
+    {
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "column Tab.len has type '", get_allocator_ref());
+        errorMessage += column.type;
+        errorMessage += "' but 'INTEGER' is expected";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("len"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_TYPE, errorMessage);
+        return false;
+    }
+
+    if (column.isNotNull)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("len"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.len is NOT NULL-able, "
+                        "but the column is expected to be NULL-able"));
+        return false;
+    }
+
+    if (column.isPrimaryKey)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("len"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.len is primary key, "
+                        "but the column is expected not to be primary key"));
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateColumnB1(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("b1", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("b1"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Tab.b1 is missing"));
+        return false;
+    }
+
+    const auto column = search->second;
+    (void)tableSchema.erase(search);
+
+    if (column.type != "BLOB")
+    {
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "column Tab.b1 has type '", get_allocator_ref());
+        errorMessage += column.type;
+        errorMessage += "' but 'BLOB' is expected";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("b1"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_TYPE, errorMessage);
+        return false;
+    }
+
+    if (column.isNotNull)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("b1"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.b1 is NOT NULL-able, "
+                        "but the column is expected to be NULL-able"));
+        return false;
+    }
+
+    if (column.isPrimaryKey)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("b1"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.b1 is primary key, "
+                        "but the column is expected not to be primary key"));
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateColumnB2(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("b2", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("b2"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Tab.b2 is missing"));
+        return false;
+    }
+
+    const auto column = search->second;
+    (void)tableSchema.erase(search);
+
+    if (column.type != "BLOB")
+    {
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "column Tab.b2 has type '", get_allocator_ref());
+        errorMessage += column.type;
+        errorMessage += "' but 'BLOB' is expected";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("b2"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_TYPE, errorMessage);
+        return false;
+    }
+
+    if (column.isNotNull)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("b2"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.b2 is NOT NULL-able, "
+                        "but the column is expected to be NULL-able"));
+        return false;
+    }
+
+    if (column.isPrimaryKey)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("b2"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.b2 is primary key, "
+                        "but the column is expected not to be primary key"));
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateColumnS(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("s", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("s"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Tab.s is missing"));
+        return false;
+    }
+
+    const auto column = search->second;
+    (void)tableSchema.erase(search);
+
+    if (column.type != "BLOB")
+    {
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "column Tab.s has type '", get_allocator_ref());
+        errorMessage += column.type;
+        errorMessage += "' but 'BLOB' is expected";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("s"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_TYPE, errorMessage);
+        return false;
+    }
+
+    if (column.isNotNull)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("s"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.s is NOT NULL-able, "
+                        "but the column is expected to be NULL-able"));
+        return false;
+    }
+
+    if (column.isPrimaryKey)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("s"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.s is primary key, "
+                        "but the column is expected not to be primary key"));
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateColumnU(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("u", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("u"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Tab.u is missing"));
+        return false;
+    }
+
+    const auto column = search->second;
+    (void)tableSchema.erase(search);
+
+    if (column.type != "INTEGER")
+    {
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "column Tab.u has type '", get_allocator_ref());
+        errorMessage += column.type;
+        errorMessage += "' but 'INTEGER' is expected";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("u"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_TYPE, errorMessage);
+        return false;
+    }
+
+    if (column.isNotNull)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("u"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.u is NOT NULL-able, "
+                        "but the column is expected to be NULL-able"));
+        return false;
+    }
+
+    if (column.isPrimaryKey)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("u"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tab.u is primary key, "
+                        "but the column is expected not to be primary key"));
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateTypeId(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 0);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_INTEGER)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Tab.id type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_INTEGER);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("id"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateTypeBig(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 1);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_INTEGER)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Tab.big type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_INTEGER);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("big"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateTypeName(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 2);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_TEXT)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Tab.name type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_TEXT);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("name"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateTypeFlag(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 3);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_INTEGER)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Tab.flag type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_INTEGER);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("flag"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateTypeF(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 4);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_FLOAT)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Tab.f type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_FLOAT);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("f"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateTypeG(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 5);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_FLOAT)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Tab.g type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_FLOAT);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("g"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateTypeCol(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 6);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_INTEGER)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Tab.col type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_INTEGER);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("col"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateTypeMsk(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 7);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_INTEGER)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Tab.msk type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_INTEGER);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("msk"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateTypeLen(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 8);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_INTEGER)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Tab.len type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_INTEGER);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("len"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateTypeB1(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 9);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_BLOB)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Tab.b1 type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_BLOB);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("b1"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateTypeB2(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 10);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_BLOB)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Tab.b2 type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_BLOB);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("b2"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateTypeS(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 11);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_BLOB)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Tab.s type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_BLOB);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("s"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateTypeU(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 12);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_INTEGER)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Tab.u type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_INTEGER);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("u"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateFieldId(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, Row& row, bool& continueValidation)
+{
+    if (sqlite3_column_type(statement, 0) == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    const int64_t intValue = sqlite3_column_int64(statement, 0);
+    // range check
+    const int64_t rangeCheckValue = static_cast<int64_t>(intValue);
+    const int64_t lowerBound = INT32_MIN;
+    const int64_t upperBound = INT32_C(2147483647);
+    if (rangeCheckValue < lowerBound || rangeCheckValue > upperBound)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>("Value ", get_allocator_ref());
+        errorMessage += ::zserio::toString(rangeCheckValue, get_allocator_ref());
+        errorMessage += " of Tab.id exceeds the range of ";
+        errorMessage += ::zserio::toString(lowerBound, get_allocator_ref());
+        errorMessage += "..";
+        errorMessage += ::zserio::toString(upperBound, get_allocator_ref());
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("id"),
+                getRowKeyValues(rowKeyValuesHolder),
+                ::zserio::IValidationObserver::VALUE_OUT_OF_RANGE, errorMessage);
+        return false;
+    }
+
+    row.setId(static_cast<int32_t>(intValue));
+
+    return true;
+}
+
+bool Tab::validateFieldBig(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, Row& row, bool& continueValidation)
+{
+    if (sqlite3_column_type(statement, 1) == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    const int64_t intValue = sqlite3_column_int64(statement, 1);
+    // range check
+    const uint64_t rangeCheckValue = static_cast<uint64_t>(intValue);
+    const uint64_t lowerBound = UINT64_C(0);
+    const uint64_t upperBound = UINT64_C(1152921504606846975);
+    if (rangeCheckValue > upperBound)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>("Value ", get_allocator_ref());
+        errorMessage += ::zserio::toString(rangeCheckValue, get_allocator_ref());
+        errorMessage += " of Tab.big exceeds the range of ";
+        errorMessage += ::zserio::toString(lowerBound, get_allocator_ref());
+        errorMessage += "..";
+        errorMessage += ::zserio::toString(upperBound, get_allocator_ref());
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("big"),
+                getRowKeyValues(rowKeyValuesHolder),
+                ::zserio::IValidationObserver::VALUE_OUT_OF_RANGE, errorMessage);
+        return false;
+    }
+
+    row.setBig(static_cast<uint64_t>(intValue));
+
+    return true;
+}
+
+bool Tab::validateFieldName(::zserio::IValidationObserver&,
+        sqlite3_stmt* statement, Row& row, bool&)
+{
+    if (sqlite3_column_type(statement, 2) == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    const unsigned char* textValue = sqlite3_column_text(statement, 2);
+    row.setName(::zserio::string<>(
+            reinterpret_cast<const char*>(textValue), get_allocator_ref()));
+
+    return true;
+}
+
+bool Tab::validateFieldFlag(::zserio::IValidationObserver&,
+        sqlite3_stmt* statement, Row& row, bool&)
+{
+    if (sqlite3_column_type(statement, 3) == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    const int64_t intValue = sqlite3_column_int64(statement, 3);
+    row.setFlag(intValue != 0);
+
+    return true;
+}
+
+bool Tab::validateFieldF(::zserio::IValidationObserver&,
+        sqlite3_stmt* statement, Row& row, bool&)
+{
+    if (sqlite3_column_type(statement, 4) == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    const double doubleValue = sqlite3_column_double(statement, 4);
+    row.setF(static_cast<float>(doubleValue));
+
+    return true;
+}
+
+bool Tab::validateFieldG(::zserio::IValidationObserver&,
+        sqlite3_stmt* statement, Row& row, bool&)
+{
+    if (sqlite3_column_type(statement, 5) == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    const double doubleValue = sqlite3_column_double(statement, 5);
+    row.setG(static_cast<double>(doubleValue));
+
+    return true;
+}
+
+bool Tab::validateFieldCol(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, Row& row, bool& continueValidation)
+{
+    if (sqlite3_column_type(statement, 6) == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    const int64_t intValue = sqlite3_column_int64(statement, 6);
+    // range check
+    const uint64_t rangeCheckValue = static_cast<uint64_t>(intValue);
+    const uint64_t lowerBound = UINT8_C(0);
+    const uint64_t upperBound = UINT8_C(255);
+    if (rangeCheckValue > upperBound)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>("Value ", get_allocator_ref());
+        errorMessage += ::zserio::toString(rangeCheckValue, get_allocator_ref());
+        errorMessage += " of Tab.col exceeds the range of ";
+        errorMessage += ::zserio::toString(lowerBound, get_allocator_ref());
+        errorMessage += "..";
+        errorMessage += ::zserio::toString(upperBound, get_allocator_ref());
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("col"),
+                getRowKeyValues(rowKeyValuesHolder),
+                ::zserio::IValidationObserver::VALUE_OUT_OF_RANGE, errorMessage);
+        return false;
+    }
+
+    try
+    {
+        const ::a::Col enumValue = ::zserio::valueToEnum<::a::Col>(static_cast<uint8_t>(intValue));
+        row.setCol(enumValue);
+    }
+    catch (const ::zserio::CppRuntimeException&)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>("Enumeration value ", get_allocator_ref());
+        errorMessage += ::zserio::toString(intValue, get_allocator_ref());
+        errorMessage += " of Tab.col is not valid!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("col"),
+                getRowKeyValues(rowKeyValuesHolder),
+                ::zserio::IValidationObserver::INVALID_VALUE, errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateFieldMsk(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, Row& row, bool& continueValidation)
+{
+    if (sqlite3_column_type(statement, 7) == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    const int64_t intValue = sqlite3_column_int64(statement, 7);
+    // range check
+    const uint64_t rangeCheckValue = static_cast<uint64_t>(intValue);
+    const uint64_t lowerBound = UINT8_C(0);
+    const uint64_t upperBound = UINT8_C(255);
+    if (rangeCheckValue > upperBound)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>("Value ", get_allocator_ref());
+        errorMessage += ::zserio::toString(rangeCheckValue, get_allocator_ref());
+        errorMessage += " of Tab.msk exceeds the range of ";
+        errorMessage += ::zserio::toString(lowerBound, get_allocator_ref());
+        errorMessage += "..";
+        errorMessage += ::zserio::toString(upperBound, get_allocator_ref());
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("msk"),
+                getRowKeyValues(rowKeyValuesHolder),
+                ::zserio::IValidationObserver::VALUE_OUT_OF_RANGE, errorMessage);
+        return false;
+    }
+
+    const ::a::Msk bitmaskValue = ::a::Msk(static_cast<uint8_t>(intValue));
+    row.setMsk(bitmaskValue);
+
+    return true;
+}
+
+bool Tab::validateFieldLen(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, Row& row, bool& continueValidation)
+{
+    if (sqlite3_column_type(statement, 8) == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    const int64_t intValue = sqlite3_column_int64(statement, 8);
+    // range check
+    const int64_t rangeCheckValue = static_cast<int64_t>(intValue);
+    const int64_t lowerBound = INT32_MIN;
+    const int64_t upperBound = INT32_C(2147483647);
+    if (rangeCheckValue < lowerBound || rangeCheckValue > upperBound)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>("Value ", get_allocator_ref());
+        errorMessage += ::zserio::toString(rangeCheckValue, get_allocator_ref());
+        errorMessage += " of Tab.len exceeds the range of ";
+        errorMessage += ::zserio::toString(lowerBound, get_allocator_ref());
+        errorMessage += "..";
+        errorMessage += ::zserio::toString(upperBound, get_allocator_ref());
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("len"),
+                getRowKeyValues(rowKeyValuesHolder),
+                ::zserio::IValidationObserver::VALUE_OUT_OF_RANGE, errorMessage);
+        return false;
+    }
+
+    row.setLen(static_cast<int32_t>(intValue));
+
+    return true;
+}
+
+bool Tab::validateBlobB1(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, Row& row, bool& continueValidation)
+{
+    const void* blobData = sqlite3_column_blob(statement, 9);
+    if (blobData == nullptr)
+    {
+        return true;
+    }
+
+    try
+    {
+        const int blobDataLength = sqlite3_column_bytes(statement, 9);
+        ::zserio::BitStreamReader reader(static_cast<const uint8_t*>(blobData),
+                static_cast<size_t>(blobDataLength));
+        const uint32_t _n = row.getLen();
+        ::a::Blob blob(reader, _n, get_allocator_ref());
+        ::zserio::BitBuffer bitBuffer(reader.getBitPosition(), get_allocator_ref());
+        ::zserio::BitStreamWriter writer(bitBuffer);
+        blob.write(writer);
+        if (reader.getBitPosition() != writer.getBitPosition())
+        {
+            const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+            ::zserio::string<> errorMessage = ::zserio::string<>(
+                    "Blob binary compare failed because of length (", get_allocator_ref());
+            errorMessage += ::zserio::toString(reader.getBitPosition(), get_allocator_ref());
+            errorMessage += " != ";
+            errorMessage += ::zserio::toString(writer.getBitPosition(), get_allocator_ref());
+            errorMessage += ")";
+            continueValidation = validationObserver.reportError(m_name,
+                    ::zserio::makeStringView("b1"), getRowKeyValues(rowKeyValuesHolder),
+                    ::zserio::IValidationObserver::BLOB_COMPARE_FAILED, errorMessage);
+            return false;
+        }
+        row.setB1(::std::move(blob));
+    }
+    catch (const ::zserio::CppRuntimeException& exception)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("b1"),
+                getRowKeyValues(rowKeyValuesHolder),
+                ::zserio::IValidationObserver::BLOB_PARSE_FAILED,
+                exception.what());
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateBlobB2(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, Row& row, IParameterProvider& parameterProvider, bool& continueValidation)
+{
+    const void* blobData = sqlite3_column_blob(statement, 10);
+    if (blobData == nullptr)
+    {
+        return true;
+    }
+
+    try
+    {
+        const int blobDataLength = sqlite3_column_bytes(statement, 10);
+        ::zserio::BitStreamReader reader(static_cast<const uint8_t*>(blobData),
+                static_cast<size_t>(blobDataLength));
+        const uint32_t _n = parameterProvider.getCnt(row);
+        ::a::Blob blob(reader, _n, get_allocator_ref());
+        ::zserio::BitBuffer bitBuffer(reader.getBitPosition(), get_allocator_ref());
+        ::zserio::BitStreamWriter writer(bitBuffer);
+        blob.write(writer);
+        if (reader.getBitPosition() != writer.getBitPosition())
+        {
+            const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+            ::zserio::string<> errorMessage = ::zserio::string<>(
+                    "Blob binary compare failed because of length (", get_allocator_ref());
+            errorMessage += ::zserio::toString(reader.getBitPosition(), get_allocator_ref());
+            errorMessage += " != ";
+            errorMessage += ::zserio::toString(writer.getBitPosition(), get_allocator_ref());
+            errorMessage += ")";
+            continueValidation = validationObserver.reportError(m_name,
+                    ::zserio::makeStringView("b2"), getRowKeyValues(rowKeyValuesHolder),
+                    ::zserio::IValidationObserver::BLOB_COMPARE_FAILED, errorMessage);
+            return false;
+        }
+        row.setB2(::std::move(blob));
+    }
+    catch (const ::zserio::CppRuntimeException& exception)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("b2"),
+                getRowKeyValues(rowKeyValuesHolder),
+                ::zserio::IValidationObserver::BLOB_PARSE_FAILED,
+                exception.what());
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateBlobS(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, Row& row, bool& continueValidation)
+{
+    const void* blobData = sqlite3_column_blob(statement, 11);
+    if (blobData == nullptr)
+    {
+        return true;
+    }
+
+    try
+    {
+        const int blobDataLength = sqlite3_column_bytes(statement, 11);
+        ::zserio::BitStreamReader reader(static_cast<const uint8_t*>(blobData),
+                static_cast<size_t>(blobDataLength));
+        ::a::Simple blob(reader, get_allocator_ref());
+        ::zserio::BitBuffer bitBuffer(reader.getBitPosition(), get_allocator_ref());
+        ::zserio::BitStreamWriter writer(bitBuffer);
+        blob.write(writer);
+        if (reader.getBitPosition() != writer.getBitPosition())
+        {
+            const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+            ::zserio::string<> errorMessage = ::zserio::string<>(
+                    "Blob binary compare failed because of length (", get_allocator_ref());
+            errorMessage += ::zserio::toString(reader.getBitPosition(), get_allocator_ref());
+            errorMessage += " != ";
+            errorMessage += ::zserio::toString(writer.getBitPosition(), get_allocator_ref());
+            errorMessage += ")";
+            continueValidation = validationObserver.reportError(m_name,
+                    ::zserio::makeStringView("s"), getRowKeyValues(rowKeyValuesHolder),
+                    ::zserio::IValidationObserver::BLOB_COMPARE_FAILED, errorMessage);
+            return false;
+        }
+        row.setS(::std::move(blob));
+    }
+    catch (const ::zserio::CppRuntimeException& exception)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("s"),
+                getRowKeyValues(rowKeyValuesHolder),
+                ::zserio::IValidationObserver::BLOB_PARSE_FAILED,
+                exception.what());
+        return false;
+    }
+
+    return true;
+}
+
+bool Tab::validateFieldU(::zserio::IValidationObserver&,
+        sqlite3_stmt* statement, Row& row, bool&)
+{
+    if (sqlite3_column_type(statement, 12) == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    const int64_t intValue = sqlite3_column_int64(statement, 12);
+    row.setU(static_cast<uint64_t>(intValue));
+
+    return true;
+}
+
+::zserio::vector<::zserio::string<>> Tab::getRowKeyValuesHolder(sqlite3_stmt* statement)
+{
+    ::zserio::vector<::zserio::string<>> rowKeyValuesHolder{get_allocator_ref()};
+
+    const unsigned char* strValueId = sqlite3_column_text(statement, 0);
+    rowKeyValuesHolder.emplace_back(reinterpret_cast<const char*>(strValueId));
+
+    return rowKeyValuesHolder;
+}
+
+::zserio::vector<::zserio::StringView> Tab::getRowKeyValues(
+            const ::zserio::vector<::zserio::string<>>& rowKeyValuesHolder)
+{
+    ::zserio::vector<::zserio::StringView> rowKeyValues{get_allocator_ref()};
+    (void)::std::transform(rowKeyValuesHolder.begin(), rowKeyValuesHolder.end(),
+            ::std::back_inserter(rowKeyValues),
+            [](const ::zserio::string<>& message) -> ::zserio::StringView { return message; });
+    return rowKeyValues;
+}
+
+void Tab::writeRow(IParameterProvider& parameterProvider, Row& row,
+        const ::std::array<bool, 13>& columnsMapping, sqlite3_stmt& statement)
+{
+    row.initializeChildren(parameterProvider);
+
+    int result = SQLITE_ERROR;
+
+    int index = 1;
+    // field id
+    if (columnsMapping[0])
+    {
+        if (!row.isIdSet())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const int64_t intValue = static_cast<int64_t>(row.getId());
+            result = sqlite3_bind_int64(&statement, index, intValue);
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Tab::WriteRow: sqlite3_bind() for field id failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+    // field big
+    if (columnsMapping[1])
+    {
+        if (!row.isBigSet())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const int64_t intValue = static_cast<int64_t>(row.getBig());
+            result = sqlite3_bind_int64(&statement, index, intValue);
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Tab::WriteRow: sqlite3_bind() for field big failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+    // field name
+    if (columnsMapping[2])
+    {
+        if (!row.isNameSet())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const ::zserio::string<>& stringValue = row.getName();
+            result = sqlite3_bind_text(&statement, index, stringValue.c_str(), -1, SQLITE_TRANSIENT);
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Tab::WriteRow: sqlite3_bind() for field name failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+    // field flag
+    if (columnsMapping[3])
+    {
+        if (!row.isFlagSet())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const int64_t intValue = static_cast<int64_t>(row.getFlag());
+            result = sqlite3_bind_int64(&statement, index, intValue);
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Tab::WriteRow: sqlite3_bind() for field flag failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+    // field f
+    if (columnsMapping[4])
+    {
+        if (!row.isFSet())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const float realValue = row.getF();
+            result = sqlite3_bind_double(&statement, index, static_cast<double>(realValue));
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Tab::WriteRow: sqlite3_bind() for field f failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+    // field g
+    if (columnsMapping[5])
+    {
+        if (!row.isGSet())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const double realValue = row.getG();
+            result = sqlite3_bind_double(&statement, index, static_cast<double>(realValue));
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Tab::WriteRow: sqlite3_bind() for field g failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+    // field col
+    if (columnsMapping[6])
+    {
+        if (!row.isColSet())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const int64_t intValue = static_cast<int64_t>(row.getCol());
+            result = sqlite3_bind_int64(&statement, index, intValue);
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Tab::WriteRow: sqlite3_bind() for field col failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+    // field msk
+    if (columnsMapping[7])
+    {
+        if (!row.isMskSet())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const int64_t intValue = static_cast<int64_t>(row.getMsk().getValue());
+            result = sqlite3_bind_int64(&statement, index, intValue);
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Tab::WriteRow: sqlite3_bind() for field msk failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+    // field len
+    if (columnsMapping[8])
+    {
+        if (!row.isLenSet())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const int64_t intValue = static_cast<int64_t>(row.getLen());
+            result = sqlite3_bind_int64(&statement, index, intValue);
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Tab::WriteRow: sqlite3_bind() for field len failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+    // field b1
+    if (columnsMapping[9])
+    {
+        if (!row.isB1Set())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const ::a::Blob& blob = row.getB1();
+            ::zserio::BitBuffer bitBuffer(blob.bitSizeOf(), get_allocator_ref());
+            ::zserio::BitStreamWriter writer(bitBuffer);
+            blob.write(writer);
+            result = sqlite3_bind_blob(&statement, index, bitBuffer.getBuffer(),
+                    static_cast<int>(bitBuffer.getByteSize()), SQLITE_TRANSIENT);
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Tab::WriteRow: sqlite3_bind() for field b1 failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+    // field b2
+    if (columnsMapping[10])
+    {
+        if (!row.isB2Set())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const ::a::Blob& blob = row.getB2();
+            ::zserio::BitBuffer bitBuffer(blob.bitSizeOf(), get_allocator_ref());
+            ::zserio::BitStreamWriter writer(bitBuffer);
+            blob.write(writer);
+            result = sqlite3_bind_blob(&statement, index, bitBuffer.getBuffer(),
+                    static_cast<int>(bitBuffer.getByteSize()), SQLITE_TRANSIENT);
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Tab::WriteRow: sqlite3_bind() for field b2 failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+    // field s
+    if (columnsMapping[11])
+    {
+        if (!row.isSSet())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const ::a::Simple& blob = row.getS();
+            ::zserio::BitBuffer bitBuffer(blob.bitSizeOf(), get_allocator_ref());
+            ::zserio::BitStreamWriter writer(bitBuffer);
+            blob.write(writer);
+            result = sqlite3_bind_blob(&statement, index, bitBuffer.getBuffer(),
+                    static_cast<int>(bitBuffer.getByteSize()), SQLITE_TRANSIENT);
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Tab::WriteRow: sqlite3_bind() for field s failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+    // field u
+    if (columnsMapping[12])
+    {
+        if (!row.isUSet())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const int64_t intValue = static_cast<int64_t>(row.getU());
+            result = sqlite3_bind_int64(&statement, index, intValue);
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Tab::WriteRow: sqlite3_bind() for field u failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+}
+
+void Tab::appendCreateTableToQuery(::zserio::string<>& sqlQuery) const
+{
+    sqlQuery += "CREATE TABLE ";
+    appendTableNameToQuery(sqlQuery);
+    sqlQuery += '(';
+    sqlQuery += "id INTEGER";
+    sqlQuery += ' ';
+    sqlQuery += ::zserio::makeStringView("PRIMARY KEY NOT NULL");
+    sqlQuery += ", big INTEGER";
+    sqlQuery += ", name TEXT";
+    sqlQuery += ", flag INTEGER";
+    sqlQuery += ", f REAL";
+    sqlQuery += ", g REAL";
+    sqlQuery += ", col INTEGER";
+    sqlQuery += ", msk INTEGER";
+    sqlQuery += ", len INTEGER";
+    sqlQuery += ", b1 BLOB";
+    sqlQuery += ", b2 BLOB";
+    sqlQuery += ", s BLOB";
+    sqlQuery += ", u INTEGER";
+    sqlQuery += ", ";
+    sqlQuery += ::zserio::makeStringView("UNIQUE(name, flag)");
+    sqlQuery += ')';
+}
+
+void Tab::appendTableNameToQuery(::zserio::string<>& sqlQuery) const
+{
+    if (!m_attachedDbName.empty())
+    {
+        sqlQuery += m_attachedDbName;
+        sqlQuery += '.';
+    }
+    sqlQuery += m_name;
+}
+
+::std::array<bool, 13> Tab::createColumnsMapping(::zserio::Span<const ::zserio::string<>> columns)
+{
+    if (columns.empty())
+    {
+        static constexpr ::std::array<bool, 13> allColumns = {true, true, true, true, true, true, true, true, true, true, true, true, true};
+        return allColumns;
+    }
+
+    ::std::array<bool, 13> columnsMapping = {};
+    for (const auto& columnName : columns)
+    {
+        const auto it = ::std::find(Tab::columnNames.begin(), Tab::columnNames.end(), ::zserio::StringView(columnName));
+        if (it == Tab::columnNames.end())
+        {
+            throw ::zserio::SqliteException("Column name '") << columnName
+                    << "' doesn't exist in 'Tab'!";
+        }
+        columnsMapping.at(static_cast<size_t>(it - Tab::columnNames.begin())) = true;
+    }
+
+    return columnsMapping;
+}
+
+void Tab::appendColumnsToQuery(::zserio::string<>& sqlQuery, const ::std::array<bool, 13>& columnsMapping,
+        ColumnFormat format)
+{
+    bool isFirst = true;
+    for (size_t i = 0; i < columnsMapping.size(); ++i)
+    {
+        if (columnsMapping[i])
+        {
+            if (isFirst)
+            {
+                isFirst = false;
+            }
+            else
+            {
+                sqlQuery += ", ";
+            }
+            switch (format)
+            {
+                case ColumnFormat::NAME:
+                    sqlQuery += Tab::columnNames[i];
+                    break;
+                case ColumnFormat::SQL_PARAMETER:
+                    sqlQuery += "?";
+                    break;
+                case ColumnFormat::SQL_UPDATE:
+                    sqlQuery += Tab::columnNames[i];
+                    sqlQuery += "=?";
+                    break;
+                default:
+                    break;
+            }
+        }
+    }
+}
+
+Tab::Row::Row(const Row& other) :
+        m_id_(other.m_id_),
+        m_big_(other.m_big_),
+        m_name_(other.m_name_),
+        m_flag_(other.m_flag_),
+        m_f_(other.m_f_),
+        m_g_(other.m_g_),
+        m_col_(other.m_col_),
+        m_msk_(other.m_msk_),
+        m_len_(other.m_len_),
+        m_b1_(other.m_b1_),
+        m_b2_(other.m_b2_),
+        m_s_(other.m_s_),
+        m_u_(other.m_u_)
+{
+    reinitializeBlobs();
+}
+
+Tab::Row& Tab::Row::operator=(const Row& other)
+{
+    m_id_ = other.m_id_;
+    m_big_ = other.m_big_;
+    m_name_ = other.m_name_;
+    m_flag_ = other.m_flag_;
+    m_f_ = other.m_f_;
+    m_g_ = other.m_g_;
+    m_col_ = other.m_col_;
+    m_msk_ = other.m_msk_;
+    m_len_ = other.m_len_;
+    m_b1_ = other.m_b1_;
+    m_b2_ = other.m_b2_;
+    m_s_ = other.m_s_;
+    m_u_ = other.m_u_;
+
+    reinitializeBlobs();
+
+    return *this;
+}
+
+Tab::Row::Row(Row&& other) :
+        m_id_(::std::move(other.m_id_)),
+        m_big_(::std::move(other.m_big_)),
+        m_name_(::std::move(other.m_name_)),
+        m_flag_(::std::move(other.m_flag_)),
+        m_f_(::std::move(other.m_f_)),
+        m_g_(::std::move(other.m_g_)),
+        m_col_(::std::move(other.m_col_)),
+        m_msk_(::std::move(other.m_msk_)),
+        m_len_(::std::move(other.m_len_)),
+        m_b1_(::std::move(other.m_b1_)),
+        m_b2_(::std::move(other.m_b2_)),
+        m_s_(::std::move(other.m_s_)),
+        m_u_(::std::move(other.m_u_))
+{
+    reinitializeBlobs();
+}
+
+Tab::Row& Tab::Row::operator=(Row&& other)
+{
+    m_id_ = ::std::move(other.m_id_);
+    m_big_ = ::std::move(other.m_big_);
+    m_name_ = ::std::move(other.m_name_);
+    m_flag_ = ::std::move(other.m_flag_);
+    m_f_ = ::std::move(other.m_f_);
+    m_g_ = ::std::move(other.m_g_);
+    m_col_ = ::std::move(other.m_col_);
+    m_msk_ = ::std::move(other.m_msk_);
+    m_len_ = ::std::move(other.m_len_);
+    m_b1_ = ::std::move(other.m_b1_);
+    m_b2_ = ::std::move(other.m_b2_);
+    m_s_ = ::std::move(other.m_s_);
+    m_u_ = ::std::move(other.m_u_);
+
+    reinitializeBlobs();
+
+    return *this;
+}
+
+int32_t Tab::Row::getId() const
+{
+    return m_id_.value();
+}
+
+void Tab::Row::setId(int32_t id_)
+{
+    m_id_ = id_;
+}
+
+void Tab::Row::resetId()
+{
+    m_id_.reset();
+}
+
+bool Tab::Row::isIdSet() const
+{
+    return m_id_.hasValue();
+}
+
+uint64_t Tab::Row::getBig() const
+{
+    return m_big_.value();
+}
+
+void Tab::Row::setBig(uint64_t big_)
+{
+    m_big_ = big_;
+}
+
+void Tab::Row::resetBig()
+{
+    m_big_.reset();
+}
+
+bool Tab::Row::isBigSet() const
+{
+    return m_big_.hasValue();
+}
+
+::zserio::string<>& Tab::Row::getName()
+{
+    return m_name_.value();
+}
+
+const ::zserio::string<>& Tab::Row::getName() const
+{
+    return m_name_.value();
+}
+
+void Tab::Row::setName(const ::zserio::string<>& name_)
+{
+    m_name_ = name_;
+}
+
+void Tab::Row::setName(::zserio::string<>&& name_)
+{
+    m_name_ = ::std::move(name_);
+}
+
+void Tab::Row::resetName()
+{
+    m_name_.reset();
+}
+
+bool Tab::Row::isNameSet() const
+{
+    return m_name_.hasValue();
+}
+
+bool Tab::Row::getFlag() const
+{
+    return m_flag_.value();
+}
+
+void Tab::Row::setFlag(bool flag_)
+{
+    m_flag_ = flag_;
+}
+
+void Tab::Row::resetFlag()
+{
+    m_flag_.reset();
+}
+
+bool Tab::Row::isFlagSet() const
+{
+    return m_flag_.hasValue();
+}
+
+float Tab::Row::getF() const
+{
+    return m_f_.value();
+}
+
+void Tab::Row::setF(float f_)
+{
+    m_f_ = f_;
+}
+
+void Tab::Row::resetF()
+{
+    m_f_.reset();
+}
+
+bool Tab::Row::isFSet() const
+{
+    return m_f_.hasValue();
+}
+
+double Tab::Row::getG() const
+{
+    return m_g_.value();
+}
+
+void Tab::Row::setG(double g_)
+{
+    m_g_ = g_;
+}
+
+void Tab::Row::resetG()
+{
+    m_g_.reset();
+}
+
+bool Tab::Row::isGSet() const
+{
+    return m_g_.hasValue();
+}
+
+::a::Col Tab::Row::getCol() const
+{
+    return m_col_.value();
+}
+
+void Tab::Row::setCol(::a::Col col_)
+{
+    m_col_ = col_;
+}
+
+void Tab::Row::resetCol()
+{
+    m_col_.reset();
+}
+
+bool Tab::Row::isColSet() const
+{
+    return m_col_.hasValue();
+}
+
+::a::Msk Tab::Row::getMsk() const
+{
+    return m_msk_.value();
+}
+
+void Tab::Row::setMsk(::a::Msk msk_)
+{
+    m_msk_ = msk_;
+}
+
+void Tab::Row::resetMsk()
+{
+    m_msk_.reset();
+}
+
+bool Tab::Row::isMskSet() const
+{
+    return m_msk_.hasValue();
+}
+
+int32_t Tab::Row::getLen() const
+{
+    return m_len_.value();
+}
+
+void Tab::Row::setLen(int32_t len_)
+{
+    m_len_ = len_;
+}
+
+void Tab::Row::resetLen()
+{
+    m_len_.reset();
+}
+
+bool Tab::Row::isLenSet() const
+{
+    return m_len_.hasValue();
+}
+
+::a::Blob& Tab::Row::getB1()
+{
+    return m_b1_.value();
+}
+
+const ::a::Blob& Tab::Row::getB1() const
+{
+    return m_b1_.value();
+}
+
+void Tab::Row::setB1(const ::a::Blob& b1_)
+{
+    m_b1_ = b1_;
+}
+
+void Tab::Row::setB1(::a::Blob&& b1_)
+{
+    m_b1_ = ::std::move(b1_);
+}
+
+void Tab::Row::resetB1()
+{
+    m_b1_.reset();
+}
+
+bool Tab::Row::isB1Set() const
+{
+    return m_b1_.hasValue();
+}
+
+::a::Blob& Tab::Row::getB2()
+{
+    return m_b2_.value();
+}
+
+const ::a::Blob& Tab::Row::getB2() const
+{
+    return m_b2_.value();
+}
+
+void Tab::Row::setB2(const ::a::Blob& b2_)
+{
+    m_b2_ = b2_;
+}
+
+void Tab::Row::setB2(::a::Blob&& b2_)
+{
+    m_b2_ = ::std::move(b2_);
+}
+
+void Tab::Row::resetB2()
+{
+    m_b2_.reset();
+}
+
+bool Tab::Row::isB2Set() const
+{
+    return m_b2_.hasValue();
+}
+
+::a::Simple& Tab::Row::getS()
+{
+    return m_s_.value();
+}
+
+const ::a::Simple& Tab::Row::getS() const
+{
+    return m_s_.value();
+}
+
+void Tab::Row::setS(const ::a::Simple& s_)
+{
+    m_s_ = s_;
+}
+
+void Tab::Row::setS(::a::Simple&& s_)
+{
+    m_s_ = ::std::move(s_);
+}
+
+void Tab::Row::resetS()
+{
+    m_s_.reset();
+}
+
+bool Tab::Row::isSSet() const
+{
+    return m_s_.hasValue();
+}
+
+uint64_t Tab::Row::getU() const
+{
+    return m_u_.value();
+}
+
+void Tab::Row::setU(uint64_t u_)
+{
+    m_u_ = u_;
+}
+
+void Tab::Row::resetU()
+{
+    m_u_.reset();
+}
+
+bool Tab::Row::isUSet() const
+{
+    return m_u_.hasValue();
+}
+
+void Tab::Row::initializeChildren(IParameterProvider& parameterProvider)
+{
+    Row& row = *this;
+
+    if (m_b1_)
+    {
+        m_b1_->initialize(
+                row.getLen());
+    }
+    if (m_b2_)
+    {
+        m_b2_->initialize(
+                parameterProvider.getCnt(row));
+    }
+}
+
+void Tab::Row::reinitializeBlobs()
+{
+    Row& row = *this;
+
+    if (m_b1_ && m_b1_->isInitialized())
+    {
+        m_b1_->initialize(
+                row.getLen());
+    }
+}
+
+} // namespace a
+
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#include <zserio/CppRuntimeException.h>
+#include <zserio/SqliteException.h>
+#include <zserio/BitStreamReader.h>
+#include <algorithm>
+#include <zserio/BitFieldUtil.h>
+#include <zserio/BitStreamWriter.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/BitBuffer.h>
+#include <zserio/StringView.h>
+
+#include <a/Worowid.h>
+
+
+namespace a
+{
+
+constexpr ::std::array<::zserio::StringView, 2> Worowid::columnNames;
+
+Worowid::Worowid(::zserio::SqliteConnection& db, ::zserio::StringView tableName,
+        ::zserio::StringView attachedDbName, const allocator_type& allocator) :
+        ::zserio::AllocatorHolder<allocator_type>(allocator),
+        m_db(db), m_name(tableName), m_attachedDbName(attachedDbName)
+{
+}
+
+Worowid::Worowid(::zserio::SqliteConnection& db, ::zserio::StringView tableName,
+        const allocator_type& allocator) :
+        Worowid(db, tableName, ::zserio::StringView(), allocator)
+{
+}
+
+void Worowid::createTable()
+{
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    appendCreateTableToQuery(sqlQuery);
+    sqlQuery += " WITHOUT ROWID";
+    m_db.executeUpdate(sqlQuery);
+}
+
+void Worowid::createOrdinaryRowIdTable()
+{
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    appendCreateTableToQuery(sqlQuery);
+    m_db.executeUpdate(sqlQuery);
+}
+
+void Worowid::deleteTable()
+{
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    sqlQuery += "DROP TABLE ";
+    appendTableNameToQuery(sqlQuery);
+    m_db.executeUpdate(sqlQuery);
+}
+
+Worowid::Reader Worowid::createReader(::zserio::StringView condition) const
+{
+    return createReader({}, condition);
+}
+
+Worowid::Reader Worowid::createReader(::zserio::Span<const ::zserio::string<>> columns,
+        ::zserio::StringView condition) const
+{
+    const ::std::array<bool, 2> columnsMapping = createColumnsMapping(columns);
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    sqlQuery += "SELECT ";
+    appendColumnsToQuery(sqlQuery, columnsMapping, ColumnFormat::NAME);
+    sqlQuery += " FROM ";
+    appendTableNameToQuery(sqlQuery);
+    if (!condition.empty())
+    {
+        sqlQuery += " WHERE ";
+        sqlQuery += condition;
+    }
+
+    return Reader(m_db, columnsMapping, sqlQuery, get_allocator_ref());
+}
+
+Worowid::Reader::Reader(::zserio::SqliteConnection& db, const ::std::array<bool, 2>& columnsMapping,
+::zserio::StringView sqlQuery, const allocator_type& allocator) :
+        ::zserio::AllocatorHolder<allocator_type>(allocator),
+        m_columnsMapping(columnsMapping),
+        m_stmt(db.prepareStatement(sqlQuery))
+{
+    makeStep();
+}
+
+bool Worowid::Reader::hasNext() const noexcept
+{
+    return m_lastResult == SQLITE_ROW;
+}
+
+Worowid::Row Worowid::Reader::next()
+{
+    if (!hasNext())
+    {
+        throw ::zserio::SqliteException("Table::Reader::next: next row is not available: ") <<
+                ::zserio::SqliteErrorCode(m_lastResult);
+    }
+
+    Row row;
+    int index = 0;
+    // field k
+    if (m_columnsMapping[0])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const unsigned char* textValue = sqlite3_column_text(m_stmt.get(), index);
+            row.setK(::zserio::string<>(
+                    reinterpret_cast<const char*>(textValue), get_allocator_ref()));
+        }
+        ++index;
+    }
+    // field v
+    if (m_columnsMapping[1])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const int64_t intValue = sqlite3_column_int64(m_stmt.get(), index);
+            row.setV(static_cast<int8_t>(intValue));
+        }
+        ++index;
+    }
+
+    makeStep();
+
+    return row;
+}
+
+void Worowid::Reader::makeStep()
+{
+    m_lastResult = sqlite3_step(m_stmt.get());
+    if (m_lastResult != SQLITE_ROW && m_lastResult != SQLITE_DONE)
+    {
+        throw ::zserio::SqliteException("Worowid::Read: sqlite3_step() failed: ") <<
+                ::zserio::SqliteErrorCode(m_lastResult);
+    }
+}
+
+void Worowid::write(::zserio::Span<Row> rows,
+        ::zserio::Span<const ::zserio::string<>> columns)
+{
+    // assemble sql query
+    const ::std::array<bool, 2> columnsMapping = createColumnsMapping(columns);
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    sqlQuery += "INSERT INTO ";
+    appendTableNameToQuery(sqlQuery);
+    sqlQuery += "(";
+    appendColumnsToQuery(sqlQuery, columnsMapping, ColumnFormat::NAME);
+    sqlQuery += ") VALUES (";
+    appendColumnsToQuery(sqlQuery, columnsMapping, ColumnFormat::SQL_PARAMETER);
+    sqlQuery += ");";
+
+    // write rows
+    const bool wasTransactionStarted = m_db.startTransaction();
+    ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> statement(m_db.prepareStatement(sqlQuery));
+
+    for (Row& row : rows)
+    {
+        writeRow(row, columnsMapping, *statement);
+        int result = sqlite3_step(statement.get());
+        if (result != SQLITE_DONE)
+        {
+            throw ::zserio::SqliteException("Write: sqlite3_step() failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+
+        result = sqlite3_clear_bindings(statement.get());
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Write: sqlite3_clear_bindings() failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+
+        result = sqlite3_reset(statement.get());
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Write: sqlite3_reset() failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+    }
+
+    m_db.endTransaction(wasTransactionStarted);
+}
+
+void Worowid::update(Row& row, ::zserio::StringView whereCondition)
+{
+    update(row, {}, whereCondition);
+}
+
+void Worowid::update(Row& row,
+        ::zserio::Span<const ::zserio::string<>> columns, ::zserio::StringView whereCondition)
+{
+    // assemble sql query
+    const ::std::array<bool, 2> columnsMapping = createColumnsMapping(columns);
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    sqlQuery += "UPDATE ";
+    appendTableNameToQuery(sqlQuery);
+    sqlQuery += " SET ";
+    appendColumnsToQuery(sqlQuery, columnsMapping, ColumnFormat::SQL_UPDATE);
+    sqlQuery += " WHERE ";
+    sqlQuery += whereCondition;
+
+    // update row
+    ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> statement(m_db.prepareStatement(sqlQuery));
+    writeRow(row, columnsMapping, *statement);
+    const int result = sqlite3_step(statement.get());
+    if (result != SQLITE_DONE)
+    {
+        throw ::zserio::SqliteException("Update: sqlite3_step() failed: ") << ::zserio::SqliteErrorCode(result);
+    }
+}
+
+bool Worowid::validate(::zserio::IValidationObserver& validationObserver, bool& continueValidation)
+{
+    const size_t numberOfRows = ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::getNumberOfTableRows(
+            m_db, m_attachedDbName, m_name, get_allocator_ref());
+    continueValidation = true;
+    if (!validationObserver.beginTable(m_name, numberOfRows))
+    {
+        return false;
+    }
+
+    size_t numberOfValidatedRows = 0;
+    if (validateSchema(validationObserver))
+    {
+        ::zserio::string<> sqlQuery{get_allocator_ref()};
+        sqlQuery += "SELECT ";
+        sqlQuery += "k, ";
+        sqlQuery += "v";
+        sqlQuery += " FROM ";
+        appendTableNameToQuery(sqlQuery);
+        ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> statement(m_db.prepareStatement(sqlQuery));
+        int result = SQLITE_OK;
+        bool continueTableValidation = true;
+        while ((result = sqlite3_step(statement.get())) == SQLITE_ROW && continueTableValidation)
+        {
+            ++numberOfValidatedRows;
+
+            if (!validateTypeK(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+            if (!validateTypeV(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+
+            Row row;
+            if (!validateFieldK(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+            if (!validateFieldV(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+        }
+        if (result != SQLITE_DONE && (continueTableValidation || result != SQLITE_ROW))
+        {
+            throw ::zserio::SqliteException("Validate: sqlite3_step() failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+    }
+
+    continueValidation = validationObserver.endTable(m_name, numberOfValidatedRows);
+
+    return true;
+}
+
+bool Worowid::validateSchema(::zserio::IValidationObserver& validationObserver)
+{
+    ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema tableSchema(
+            get_allocator_ref());
+    ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::getTableSchema(
+            m_db, m_attachedDbName, m_name, tableSchema, get_allocator_ref());
+
+    bool result = true;
+    bool continueValidation = true;
+
+    if (!validateColumnK(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (continueValidation && !validateColumnV(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (!tableSchema.empty())
+    {
+        for (auto it = tableSchema.begin(); it != tableSchema.end() && continueValidation; ++it)
+        {
+            const auto& columnName = it->first;
+            const auto& columnType = it->second.type;
+            ::zserio::string<> errorMessage = ::zserio::string<>(
+                    "superfluous column ", get_allocator_ref());
+            errorMessage += m_name;
+            errorMessage += ".";
+            errorMessage += columnName;
+            errorMessage += " of type ";
+            errorMessage += columnType;
+            errorMessage += " encountered";
+            continueValidation = validationObserver.reportError(m_name, columnName,
+                    ::zserio::Span<::zserio::StringView>(),
+                    ::zserio::IValidationObserver::COLUMN_SUPERFLUOUS,
+                    errorMessage);
+        }
+        result = false;
+    }
+
+    return result;
+}
+
+bool Worowid::validateColumnK(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("k", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("k"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Worowid.k is missing"));
+        return false;
+    }
+
+    const auto column = search->second;
+    (void)tableSchema.erase(search);
+
+    if (column.type != "TEXT")
+    {
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "column Worowid.k has type '", get_allocator_ref());
+        errorMessage += column.type;
+        errorMessage += "' but 'TEXT' is expected";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("k"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_TYPE, errorMessage);
+        return false;
+    }
+
+    if (!column.isNotNull)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("k"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Worowid.k is NULL-able, "
+                        "but the column is expected to be NOT NULL-able"));
+        return false;
+    }
+
+    if (!column.isPrimaryKey)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("k"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Worowid.k is not primary key, "
+                        "but the column is expected to be primary key"));
+        return false;
+    }
+
+    return true;
+}
+
+bool Worowid::validateColumnV(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("v", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("v"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Worowid.v is missing"));
+        return false;
+    }
+
+    const auto column = search->second;
+    (void)tableSchema.erase(search);
+
+    if (column.type != "INTEGER")
+    {
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "column Worowid.v has type '", get_allocator_ref());
+        errorMessage += column.type;
+        errorMessage += "' but 'INTEGER' is expected";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("v"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_TYPE, errorMessage);
+        return false;
+    }
+
+    if (column.isNotNull)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("v"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Worowid.v is NOT NULL-able, "
+                        "but the column is expected to be NULL-able"));
+        return false;
+    }
+
+    if (column.isPrimaryKey)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("v"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Worowid.v is primary key, "
+                        "but the column is expected not to be primary key"));
+        return false;
+    }
+
+    return true;
+}
+
+bool Worowid::validateTypeK(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 0);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_TEXT)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Worowid.k type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_TEXT);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("k"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Worowid::validateTypeV(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 1);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_INTEGER)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Worowid.v type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_INTEGER);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("v"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Worowid::validateFieldK(::zserio::IValidationObserver&,
+        sqlite3_stmt* statement, Row& row, bool&)
+{
+    if (sqlite3_column_type(statement, 0) == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    const unsigned char* textValue = sqlite3_column_text(statement, 0);
+    row.setK(::zserio::string<>(
+            reinterpret_cast<const char*>(textValue), get_allocator_ref()));
+
+    return true;
+}
+
+bool Worowid::validateFieldV(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, Row& row, bool& continueValidation)
+{
+    if (sqlite3_column_type(statement, 1) == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    const int64_t intValue = sqlite3_column_int64(statement, 1);
+    // range check
+    const int64_t rangeCheckValue = static_cast<int64_t>(intValue);
+    const int64_t lowerBound = INT8_C(-128);
+    const int64_t upperBound = INT8_C(127);
+    if (rangeCheckValue < lowerBound || rangeCheckValue > upperBound)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>("Value ", get_allocator_ref());
+        errorMessage += ::zserio::toString(rangeCheckValue, get_allocator_ref());
+        errorMessage += " of Worowid.v exceeds the range of ";
+        errorMessage += ::zserio::toString(lowerBound, get_allocator_ref());
+        errorMessage += "..";
+        errorMessage += ::zserio::toString(upperBound, get_allocator_ref());
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("v"),
+                getRowKeyValues(rowKeyValuesHolder),
+                ::zserio::IValidationObserver::VALUE_OUT_OF_RANGE, errorMessage);
+        return false;
+    }
+
+    row.setV(static_cast<int8_t>(intValue));
+
+    return true;
+}
+
+::zserio::vector<::zserio::string<>> Worowid::getRowKeyValuesHolder(sqlite3_stmt* statement)
+{
+    ::zserio::vector<::zserio::string<>> rowKeyValuesHolder{get_allocator_ref()};
+
+    const unsigned char* strValueK = sqlite3_column_text(statement, 0);
+    rowKeyValuesHolder.emplace_back(reinterpret_cast<const char*>(strValueK));
+
+    return rowKeyValuesHolder;
+}
+
+::zserio::vector<::zserio::StringView> Worowid::getRowKeyValues(
+            const ::zserio::vector<::zserio::string<>>& rowKeyValuesHolder)
+{
+    ::zserio::vector<::zserio::StringView> rowKeyValues{get_allocator_ref()};
+    (void)::std::transform(rowKeyValuesHolder.begin(), rowKeyValuesHolder.end(),
+            ::std::back_inserter(rowKeyValues),
+            [](const ::zserio::string<>& message) -> ::zserio::StringView { return message; });
+    return rowKeyValues;
+}
+
+void Worowid::writeRow(Row& row,
+        const ::std::array<bool, 2>& columnsMapping, sqlite3_stmt& statement)
+{
+    int result = SQLITE_ERROR;
+
+    int index = 1;
+    // field k
+    if (columnsMapping[0])
+    {
+        if (!row.isKSet())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const ::zserio::string<>& stringValue = row.getK();
+            result = sqlite3_bind_text(&statement, index, stringValue.c_str(), -1, SQLITE_TRANSIENT);
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Worowid::WriteRow: sqlite3_bind() for field k failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+    // field v
+    if (columnsMapping[1])
+    {
+        if (!row.isVSet())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const int64_t intValue = static_cast<int64_t>(row.getV());
+            result = sqlite3_bind_int64(&statement, index, intValue);
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Worowid::WriteRow: sqlite3_bind() for field v failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+}
+
+void Worowid::appendCreateTableToQuery(::zserio::string<>& sqlQuery) const
+{
+    sqlQuery += "CREATE TABLE ";
+    appendTableNameToQuery(sqlQuery);
+    sqlQuery += '(';
+    sqlQuery += "k TEXT";
+    sqlQuery += ' ';
+    sqlQuery += ::zserio::makeStringView("NOT NULL");
+    sqlQuery += ", v INTEGER";
+    sqlQuery += ", ";
+    sqlQuery += ::zserio::makeStringView("PRIMARY KEY(k)");
+    sqlQuery += ')';
+}
+
+void Worowid::appendTableNameToQuery(::zserio::string<>& sqlQuery) const
+{
+    if (!m_attachedDbName.empty())
+    {
+        sqlQuery += m_attachedDbName;
+        sqlQuery += '.';
+    }
+    sqlQuery += m_name;
+}
+
+::std::array<bool, 2> Worowid::createColumnsMapping(::zserio::Span<const ::zserio::string<>> columns)
+{
+    if (columns.empty())
+    {
+        static constexpr ::std::array<bool, 2> allColumns = {true, true};
+        return allColumns;
+    }
+
+    ::std::array<bool, 2> columnsMapping = {};
+    for (const auto& columnName : columns)
+    {
+        const auto it = ::std::find(Worowid::columnNames.begin(), Worowid::columnNames.end(), ::zserio::StringView(columnName));
+        if (it == Worowid::columnNames.end())
+        {
+            throw ::zserio::SqliteException("Column name '") << columnName
+                    << "' doesn't exist in 'Worowid'!";
+        }
+        columnsMapping.at(static_cast<size_t>(it - Worowid::columnNames.begin())) = true;
+    }
+
+    return columnsMapping;
+}
+
+void Worowid::appendColumnsToQuery(::zserio::string<>& sqlQuery, const ::std::array<bool, 2>& columnsMapping,
+        ColumnFormat format)
+{
+    bool isFirst = true;
+    for (size_t i = 0; i < columnsMapping.size(); ++i)
+    {
+        if (columnsMapping[i])
+        {
+            if (isFirst)
+            {
+                isFirst = false;
+            }
+            else
+            {
+                sqlQuery += ", ";
+            }
+            switch (format)
+            {
+                case ColumnFormat::NAME:
+                    sqlQuery += Worowid::columnNames[i];
+                    break;
+                case ColumnFormat::SQL_PARAMETER:
+                    sqlQuery += "?";
+                    break;
+                case ColumnFormat::SQL_UPDATE:
+                    sqlQuery += Worowid::columnNames[i];
+                    sqlQuery += "=?";
+                    break;
+                default:
+                    break;
+            }
+        }
+    }
+}
+
+::zserio::string<>& Worowid::Row::getK()
+{
+    return m_k_.value();
+}
+
+const ::zserio::string<>& Worowid::Row::getK() const
+{
+    return m_k_.value();
+}
+
+void Worowid::Row::setK(const ::zserio::string<>& k_)
+{
+    m_k_ = k_;
+}
+
+void Worowid::Row::setK(::zserio::string<>&& k_)
+{
+    m_k_ = ::std::move(k_);
+}
+
+void Worowid::Row::resetK()
+{
+    m_k_.reset();
+}
+
+bool Worowid::Row::isKSet() const
+{
+    return m_k_.hasValue();
+}
+
+int8_t Worowid::Row::getV() const
+{
+    return m_v_.value();
+}
+
+void Worowid::Row::setV(int8_t v_)
+{
+    m_v_ = v_;
+}
+
+void Worowid::Row::resetV()
+{
+    m_v_.reset();
+}
+
+bool Worowid::Row::isVSet() const
+{
+    return m_v_.hasValue();
+}
+
+} // namespace a
+
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#include <zserio/CppRuntimeException.h>
+#include <zserio/SqliteException.h>
+#include <zserio/BitStreamReader.h>
+#include <algorithm>
+#include <zserio/BitFieldUtil.h>
+#include <zserio/BitStreamWriter.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/BitBuffer.h>
+
+#include <a/Fts.h>
+
+
+namespace a
+{
+
+constexpr ::std::array<::zserio::StringView, 2> Fts::columnNames;
+
+Fts::Fts(::zserio::SqliteConnection& db, ::zserio::StringView tableName,
+        ::zserio::StringView attachedDbName, const allocator_type& allocator) :
+        ::zserio::AllocatorHolder<allocator_type>(allocator),
+        m_db(db), m_name(tableName), m_attachedDbName(attachedDbName)
+{
+}
+
+Fts::Fts(::zserio::SqliteConnection& db, ::zserio::StringView tableName,
+        const allocator_type& allocator) :
+        Fts(db, tableName, ::zserio::StringView(), allocator)
+{
+}
+
+void Fts::createTable()
+{
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    appendCreateTableToQuery(sqlQuery);
+    m_db.executeUpdate(sqlQuery);
+}
+
+void Fts::deleteTable()
+{
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    sqlQuery += "DROP TABLE ";
+    appendTableNameToQuery(sqlQuery);
+    m_db.executeUpdate(sqlQuery);
+}
+
+Fts::Reader Fts::createReader(::zserio::StringView condition) const
+{
+    return createReader({}, condition);
+}
+
+Fts::Reader Fts::createReader(::zserio::Span<const ::zserio::string<>> columns,
+        ::zserio::StringView condition) const
+{
+    const ::std::array<bool, 2> columnsMapping = createColumnsMapping(columns);
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    sqlQuery += "SELECT ";
+    appendColumnsToQuery(sqlQuery, columnsMapping, ColumnFormat::NAME);
+    sqlQuery += " FROM ";
+    appendTableNameToQuery(sqlQuery);
+    if (!condition.empty())
+    {
+        sqlQuery += " WHERE ";
+        sqlQuery += condition;
+    }
+
+    return Reader(m_db, columnsMapping, sqlQuery, get_allocator_ref());
+}
+
+Fts::Reader::Reader(::zserio::SqliteConnection& db, const ::std::array<bool, 2>& columnsMapping,
+::zserio::StringView sqlQuery, const allocator_type& allocator) :
+        ::zserio::AllocatorHolder<allocator_type>(allocator),
+        m_columnsMapping(columnsMapping),
+        m_stmt(db.prepareStatement(sqlQuery))
+{
+    makeStep();
+}
+
+bool Fts::Reader::hasNext() const noexcept
+{
+    return m_lastResult == SQLITE_ROW;
+}
+
+Fts::Row Fts::Reader::next()
+{
+    if (!hasNext())
+    {
+        throw ::zserio::SqliteException("Table::Reader::next: next row is not available: ") <<
+                ::zserio::SqliteErrorCode(m_lastResult);
+    }
+
+    Row row;
+    int index = 0;
+    // field content
+    if (m_columnsMapping[0])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const unsigned char* textValue = sqlite3_column_text(m_stmt.get(), index);
+            row.setContent(::zserio::string<>(
+                    reinterpret_cast<const char*>(textValue), get_allocator_ref()));
+        }
+        ++index;
+    }
+    // field title
+    if (m_columnsMapping[1])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const unsigned char* textValue = sqlite3_column_text(m_stmt.get(), index);
+            row.setTitle(::zserio::string<>(
+                    reinterpret_cast<const char*>(textValue), get_allocator_ref()));
+        }
+        ++index;
+    }
+
+    makeStep();
+
+    return row;
+}
+
+void Fts::Reader::makeStep()
+{
+    m_lastResult = sqlite3_step(m_stmt.get());
+    if (m_lastResult != SQLITE_ROW && m_lastResult != SQLITE_DONE)
+    {
+        throw ::zserio::SqliteException("Fts::Read: sqlite3_step() failed: ") <<
+                ::zserio::SqliteErrorCode(m_lastResult);
+    }
+}
+
+void Fts::write(::zserio::Span<Row> rows,
+        ::zserio::Span<const ::zserio::string<>> columns)
+{
+    // assemble sql query
+    const ::std::array<bool, 2> columnsMapping = createColumnsMapping(columns);
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    sqlQuery += "INSERT INTO ";
+    appendTableNameToQuery(sqlQuery);
+    sqlQuery += "(";
+    appendColumnsToQuery(sqlQuery, columnsMapping, ColumnFormat::NAME);
+    sqlQuery += ") VALUES (";
+    appendColumnsToQuery(sqlQuery, columnsMapping, ColumnFormat::SQL_PARAMETER);
+    sqlQuery += ");";
+
+    // write rows
+    const bool wasTransactionStarted = m_db.startTransaction();
+    ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> statement(m_db.prepareStatement(sqlQuery));
+
+    for (Row& row : rows)
+    {
+        writeRow(row, columnsMapping, *statement);
+        int result = sqlite3_step(statement.get());
+        if (result != SQLITE_DONE)
+        {
+            throw ::zserio::SqliteException("Write: sqlite3_step() failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+
+        result = sqlite3_clear_bindings(statement.get());
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Write: sqlite3_clear_bindings() failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+
+        result = sqlite3_reset(statement.get());
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Write: sqlite3_reset() failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+    }
+
+    m_db.endTransaction(wasTransactionStarted);
+}
+
+void Fts::update(Row& row, ::zserio::StringView whereCondition)
+{
+    update(row, {}, whereCondition);
+}
+
+void Fts::update(Row& row,
+        ::zserio::Span<const ::zserio::string<>> columns, ::zserio::StringView whereCondition)
+{
+    // assemble sql query
+    const ::std::array<bool, 2> columnsMapping = createColumnsMapping(columns);
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    sqlQuery += "UPDATE ";
+    appendTableNameToQuery(sqlQuery);
+    sqlQuery += " SET ";
+    appendColumnsToQuery(sqlQuery, columnsMapping, ColumnFormat::SQL_UPDATE);
+    sqlQuery += " WHERE ";
+    sqlQuery += whereCondition;
+
+    // update row
+    ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> statement(m_db.prepareStatement(sqlQuery));
+    writeRow(row, columnsMapping, *statement);
+    const int result = sqlite3_step(statement.get());
+    if (result != SQLITE_DONE)
+    {
+        throw ::zserio::SqliteException("Update: sqlite3_step() failed: ") << ::zserio::SqliteErrorCode(result);
+    }
+}
+
+bool Fts::validate(::zserio::IValidationObserver& validationObserver, bool& continueValidation)
+{
+    const size_t numberOfRows = ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::getNumberOfTableRows(
+            m_db, m_attachedDbName, m_name, get_allocator_ref());
+    continueValidation = true;
+    if (!validationObserver.beginTable(m_name, numberOfRows))
+    {
+        return false;
+    }
+
+    size_t numberOfValidatedRows = 0;
+    if (validateSchema(validationObserver))
+    {
+        ::zserio::string<> sqlQuery{get_allocator_ref()};
+        sqlQuery += "SELECT ";
+        sqlQuery += "content, ";
+        sqlQuery += "title, ";
+        sqlQuery += "rowid";
+        sqlQuery += " FROM ";
+        appendTableNameToQuery(sqlQuery);
+        ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> statement(m_db.prepareStatement(sqlQuery));
+        int result = SQLITE_OK;
+        bool continueTableValidation = true;
+        while ((result = sqlite3_step(statement.get())) == SQLITE_ROW && continueTableValidation)
+        {
+            ++numberOfValidatedRows;
+
+            if (!validateTypeContent(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+            if (!validateTypeTitle(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+
+            Row row;
+            if (!validateFieldContent(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+            if (!validateFieldTitle(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+        }
+        if (result != SQLITE_DONE && (continueTableValidation || result != SQLITE_ROW))
+        {
+            throw ::zserio::SqliteException("Validate: sqlite3_step() failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+    }
+
+    continueValidation = validationObserver.endTable(m_name, numberOfValidatedRows);
+
+    return true;
+}
+
+bool Fts::validateSchema(::zserio::IValidationObserver& validationObserver)
+{
+    ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema tableSchema(
+            get_allocator_ref());
+    ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::getTableSchema(
+            m_db, m_attachedDbName, m_name, tableSchema, get_allocator_ref());
+
+    bool result = true;
+    bool continueValidation = true;
+
+    if (!validateColumnContent(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (continueValidation && !validateColumnTitle(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (!tableSchema.empty())
+    {
+        for (auto it = tableSchema.begin(); it != tableSchema.end() && continueValidation; ++it)
+        {
+            const auto& columnName = it->first;
+            const auto& columnType = it->second.type;
+            ::zserio::string<> errorMessage = ::zserio::string<>(
+                    "superfluous column ", get_allocator_ref());
+            errorMessage += m_name;
+            errorMessage += ".";
+            errorMessage += columnName;
+            errorMessage += " of type ";
+            errorMessage += columnType;
+            errorMessage += " encountered";
+            continueValidation = validationObserver.reportError(m_name, columnName,
+                    ::zserio::Span<::zserio::StringView>(),
+                    ::zserio::IValidationObserver::COLUMN_SUPERFLUOUS,
+                    errorMessage);
+        }
+        result = false;
+    }
+
+    return result;
+}
+
+bool Fts::validateColumnContent(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("content", get_allocator_ref()));
+    if (search == tableSchema.end() &&
+            !::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::isColumnInTable(
+                    m_db, m_attachedDbName, m_name, ::zserio::makeStringView("content"),
+                    get_allocator_ref()))
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("content"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Fts.content is missing"));
+        return false;
+    }
+
+    if (search != tableSchema.end())
+    {
+        (void)tableSchema.erase(search);
+    }
+
+    return true;
+}
+
+bool Fts::validateColumnTitle(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("title", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("title"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Fts.title is missing"));
+        return false;
+    }
+
+    if (search != tableSchema.end())
+    {
+        (void)tableSchema.erase(search);
+    }
+
+    return true;
+}
+
+bool Fts::validateTypeContent(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 0);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_TEXT)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Fts.content type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_TEXT);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("content"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Fts::validateTypeTitle(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 1);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_TEXT)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Fts.title type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_TEXT);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("title"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Fts::validateFieldContent(::zserio::IValidationObserver&,
+        sqlite3_stmt* statement, Row& row, bool&)
+{
+    if (sqlite3_column_type(statement, 0) == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    const unsigned char* textValue = sqlite3_column_text(statement, 0);
+    row.setContent(::zserio::string<>(
+            reinterpret_cast<const char*>(textValue), get_allocator_ref()));
+
+    return true;
+}
+
+bool Fts::validateFieldTitle(::zserio::IValidationObserver&,
+        sqlite3_stmt* statement, Row& row, bool&)
+{
+    if (sqlite3_column_type(statement, 1) == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    const unsigned char* textValue = sqlite3_column_text(statement, 1);
+    row.setTitle(::zserio::string<>(
+            reinterpret_cast<const char*>(textValue), get_allocator_ref()));
+
+    return true;
+}
+
+::zserio::vector<::zserio::string<>> Fts::getRowKeyValuesHolder(sqlite3_stmt* statement)
+{
+    ::zserio::vector<::zserio::string<>> rowKeyValuesHolder{get_allocator_ref()};
+
+    const unsigned char* strValueRowId = sqlite3_column_text(statement, 2);
+    rowKeyValuesHolder.emplace_back(reinterpret_cast<const char*>(strValueRowId));
+
+    return rowKeyValuesHolder;
+}
+
+::zserio::vector<::zserio::StringView> Fts::getRowKeyValues(
+            const ::zserio::vector<::zserio::string<>>& rowKeyValuesHolder)
+{
+    ::zserio::vector<::zserio::StringView> rowKeyValues{get_allocator_ref()};
+    (void)::std::transform(rowKeyValuesHolder.begin(), rowKeyValuesHolder.end(),
+            ::std::back_inserter(rowKeyValues),
+            [](const ::zserio::string<>& message) -> ::zserio::StringView { return message; });
+    return rowKeyValues;
+}
+
+void Fts::writeRow(Row& row,
+        const ::std::array<bool, 2>& columnsMapping, sqlite3_stmt& statement)
+{
+    int result = SQLITE_ERROR;
+
+    int index = 1;
+    // field content
+    if (columnsMapping[0])
+    {
+        if (!row.isContentSet())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const ::zserio::string<>& stringValue = row.getContent();
+            result = sqlite3_bind_text(&statement, index, stringValue.c_str(), -1, SQLITE_TRANSIENT);
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Fts::WriteRow: sqlite3_bind() for field content failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+    // field title
+    if (columnsMapping[1])
+    {
+        if (!row.isTitleSet())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const ::zserio::string<>& stringValue = row.getTitle();
+            result = sqlite3_bind_text(&statement, index, stringValue.c_str(), -1, SQLITE_TRANSIENT);
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Fts::WriteRow: sqlite3_bind() for field title failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+}
+
+void Fts::appendCreateTableToQuery(::zserio::string<>& sqlQuery) const
+{
+    sqlQuery += "CREATE VIRTUAL TABLE ";
+    appendTableNameToQuery(sqlQuery);
+    sqlQuery += " USING fts4";
+    sqlQuery += '(';
+    sqlQuery += "title TEXT";
+    sqlQuery += ')';
+}
+
+void Fts::appendTableNameToQuery(::zserio::string<>& sqlQuery) const
+{
+    if (!m_attachedDbName.empty())
+    {
+        sqlQuery += m_attachedDbName;
+        sqlQuery += '.';
+    }
+    sqlQuery += m_name;
+}
+
+::std::array<bool, 2> Fts::createColumnsMapping(::zserio::Span<const ::zserio::string<>> columns)
+{
+    if (columns.empty())
+    {
+        static constexpr ::std::array<bool, 2> allColumns = {true, true};
+        return allColumns;
+    }
+
+    ::std::array<bool, 2> columnsMapping = {};
+    for (const auto& columnName : columns)
+    {
+        const auto it = ::std::find(Fts::columnNames.begin(), Fts::columnNames.end(), ::zserio::StringView(columnName));
+        if (it == Fts::columnNames.end())
+        {
+            throw ::zserio::SqliteException("Column name '") << columnName
+                    << "' doesn't exist in 'Fts'!";
+        }
+        columnsMapping.at(static_cast<size_t>(it - Fts::columnNames.begin())) = true;
+    }
+
+    return columnsMapping;
+}
+
+void Fts::appendColumnsToQuery(::zserio::string<>& sqlQuery, const ::std::array<bool, 2>& columnsMapping,
+        ColumnFormat format)
+{
+    bool isFirst = true;
+    for (size_t i = 0; i < columnsMapping.size(); ++i)
+    {
+        if (columnsMapping[i])
+        {
+            if (isFirst)
+            {
+                isFirst = false;
+            }
+            else
+            {
+                sqlQuery += ", ";
+            }
+            switch (format)
+            {
+                case ColumnFormat::NAME:
+                    sqlQuery += Fts::columnNames[i];
+                    break;
+                case ColumnFormat::SQL_PARAMETER:
+                    sqlQuery += "?";
+                    break;
+                case ColumnFormat::SQL_UPDATE:
+                    sqlQuery += Fts::columnNames[i];
+                    sqlQuery += "=?";
+                    break;
+                default:
+                    break;
+            }
+        }
+    }
+}
+
+::zserio::string<>& Fts::Row::getContent()
+{
+    return m_content_.value();
+}
+
+const ::zserio::string<>& Fts::Row::getContent() const
+{
+    return m_content_.value();
+}
+
+void Fts::Row::setContent(const ::zserio::string<>& content_)
+{
+    m_content_ = content_;
+}
+
+void Fts::Row::setContent(::zserio::string<>&& content_)
+{
+    m_content_ = ::std::move(content_);
+}
+
+void Fts::Row::resetContent()
+{
+    m_content_.reset();
+}
+
+bool Fts::Row::isContentSet() const
+{
+    return m_content_.hasValue();
+}
+
+::zserio::string<>& Fts::Row::getTitle()
+{
+    return m_title_.value();
+}
+
+const ::zserio::string<>& Fts::Row::getTitle() const
+{
+    return m_title_.value();
+}
+
+void Fts::Row::setTitle(const ::zserio::string<>& title_)
+{
+    m_title_ = title_;
+}
+
+void Fts::Row::setTitle(::zserio::string<>&& title_)
+{
+    m_title_ = ::std::move(title_);
+}
+
+void Fts::Row::resetTitle()
+{
+    m_title_.reset();
+}
+
+bool Fts::Row::isTitleSet() const
+{
+    return m_title_.hasValue();
+}
+
+} // namespace a
+
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#include <zserio/CppRuntimeException.h>
+#include <zserio/SqliteException.h>
+#include <zserio/BitStreamReader.h>
+#include <algorithm>
+#include <zserio/BitFieldUtil.h>
+#include <zserio/BitStreamWriter.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/BitBuffer.h>
+#include <zserio/StringView.h>
+
+#include <a/Tpl_string.h>
+
+
+namespace a
+{
+
+constexpr ::std::array<::zserio::StringView, 2> Tpl_string::columnNames;
+
+Tpl_string::Tpl_string(::zserio::SqliteConnection& db, ::zserio::StringView tableName,
+        ::zserio::StringView attachedDbName, const allocator_type& allocator) :
+        ::zserio::AllocatorHolder<allocator_type>(allocator),
+        m_db(db), m_name(tableName), m_attachedDbName(attachedDbName)
+{
+}
+
+Tpl_string::Tpl_string(::zserio::SqliteConnection& db, ::zserio::StringView tableName,
+        const allocator_type& allocator) :
+        Tpl_string(db, tableName, ::zserio::StringView(), allocator)
+{
+}
+
+void Tpl_string::createTable()
+{
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    appendCreateTableToQuery(sqlQuery);
+    m_db.executeUpdate(sqlQuery);
+}
+
+void Tpl_string::deleteTable()
+{
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    sqlQuery += "DROP TABLE ";
+    appendTableNameToQuery(sqlQuery);
+    m_db.executeUpdate(sqlQuery);
+}
+
+Tpl_string::Reader Tpl_string::createReader(::zserio::StringView condition) const
+{
+    return createReader({}, condition);
+}
+
+Tpl_string::Reader Tpl_string::createReader(::zserio::Span<const ::zserio::string<>> columns,
+        ::zserio::StringView condition) const
+{
+    const ::std::array<bool, 2> columnsMapping = createColumnsMapping(columns);
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    sqlQuery += "SELECT ";
+    appendColumnsToQuery(sqlQuery, columnsMapping, ColumnFormat::NAME);
+    sqlQuery += " FROM ";
+    appendTableNameToQuery(sqlQuery);
+    if (!condition.empty())
+    {
+        sqlQuery += " WHERE ";
+        sqlQuery += condition;
+    }
+
+    return Reader(m_db, columnsMapping, sqlQuery, get_allocator_ref());
+}
+
+Tpl_string::Reader::Reader(::zserio::SqliteConnection& db, const ::std::array<bool, 2>& columnsMapping,
+::zserio::StringView sqlQuery, const allocator_type& allocator) :
+        ::zserio::AllocatorHolder<allocator_type>(allocator),
+        m_columnsMapping(columnsMapping),
+        m_stmt(db.prepareStatement(sqlQuery))
+{
+    makeStep();
+}
+
+bool Tpl_string::Reader::hasNext() const noexcept
+{
+    return m_lastResult == SQLITE_ROW;
+}
+
+Tpl_string::Row Tpl_string::Reader::next()
+{
+    if (!hasNext())
+    {
+        throw ::zserio::SqliteException("Table::Reader::next: next row is not available: ") <<
+                ::zserio::SqliteErrorCode(m_lastResult);
+    }
+
+    Row row;
+    int index = 0;
+    // field id
+    if (m_columnsMapping[0])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const int64_t intValue = sqlite3_column_int64(m_stmt.get(), index);
+            row.setId(static_cast<uint32_t>(intValue));
+        }
+        ++index;
+    }
+    // field val
+    if (m_columnsMapping[1])
+    {
+        if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
+        {
+            const unsigned char* textValue = sqlite3_column_text(m_stmt.get(), index);
+            row.setVal(::zserio::string<>(
+                    reinterpret_cast<const char*>(textValue), get_allocator_ref()));
+        }
+        ++index;
+    }
+
+    makeStep();
+
+    return row;
+}
+
+void Tpl_string::Reader::makeStep()
+{
+    m_lastResult = sqlite3_step(m_stmt.get());
+    if (m_lastResult != SQLITE_ROW && m_lastResult != SQLITE_DONE)
+    {
+        throw ::zserio::SqliteException("Tpl_string::Read: sqlite3_step() failed: ") <<
+                ::zserio::SqliteErrorCode(m_lastResult);
+    }
+}
+
+void Tpl_string::write(::zserio::Span<Row> rows,
+        ::zserio::Span<const ::zserio::string<>> columns)
+{
+    // assemble sql query
+    const ::std::array<bool, 2> columnsMapping = createColumnsMapping(columns);
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    sqlQuery += "INSERT INTO ";
+    appendTableNameToQuery(sqlQuery);
+    sqlQuery += "(";
+    appendColumnsToQuery(sqlQuery, columnsMapping, ColumnFormat::NAME);
+    sqlQuery += ") VALUES (";
+    appendColumnsToQuery(sqlQuery, columnsMapping, ColumnFormat::SQL_PARAMETER);
+    sqlQuery += ");";
+
+    // write rows
+    const bool wasTransactionStarted = m_db.startTransaction();
+    ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> statement(m_db.prepareStatement(sqlQuery));
+
+    for (Row& row : rows)
+    {
+        writeRow(row, columnsMapping, *statement);
+        int result = sqlite3_step(statement.get());
+        if (result != SQLITE_DONE)
+        {
+            throw ::zserio::SqliteException("Write: sqlite3_step() failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+
+        result = sqlite3_clear_bindings(statement.get());
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Write: sqlite3_clear_bindings() failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+
+        result = sqlite3_reset(statement.get());
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Write: sqlite3_reset() failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+    }
+
+    m_db.endTransaction(wasTransactionStarted);
+}
+
+void Tpl_string::update(Row& row, ::zserio::StringView whereCondition)
+{
+    update(row, {}, whereCondition);
+}
+
+void Tpl_string::update(Row& row,
+        ::zserio::Span<const ::zserio::string<>> columns, ::zserio::StringView whereCondition)
+{
+    // assemble sql query
+    const ::std::array<bool, 2> columnsMapping = createColumnsMapping(columns);
+    ::zserio::string<> sqlQuery(get_allocator_ref());
+    sqlQuery += "UPDATE ";
+    appendTableNameToQuery(sqlQuery);
+    sqlQuery += " SET ";
+    appendColumnsToQuery(sqlQuery, columnsMapping, ColumnFormat::SQL_UPDATE);
+    sqlQuery += " WHERE ";
+    sqlQuery += whereCondition;
+
+    // update row
+    ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> statement(m_db.prepareStatement(sqlQuery));
+    writeRow(row, columnsMapping, *statement);
+    const int result = sqlite3_step(statement.get());
+    if (result != SQLITE_DONE)
+    {
+        throw ::zserio::SqliteException("Update: sqlite3_step() failed: ") << ::zserio::SqliteErrorCode(result);
+    }
+}
+
+bool Tpl_string::validate(::zserio::IValidationObserver& validationObserver, bool& continueValidation)
+{
+    const size_t numberOfRows = ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::getNumberOfTableRows(
+            m_db, m_attachedDbName, m_name, get_allocator_ref());
+    continueValidation = true;
+    if (!validationObserver.beginTable(m_name, numberOfRows))
+    {
+        return false;
+    }
+
+    size_t numberOfValidatedRows = 0;
+    if (validateSchema(validationObserver))
+    {
+        ::zserio::string<> sqlQuery{get_allocator_ref()};
+        sqlQuery += "SELECT ";
+        sqlQuery += "id, ";
+        sqlQuery += "val";
+        sqlQuery += " FROM ";
+        appendTableNameToQuery(sqlQuery);
+        ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> statement(m_db.prepareStatement(sqlQuery));
+        int result = SQLITE_OK;
+        bool continueTableValidation = true;
+        while ((result = sqlite3_step(statement.get())) == SQLITE_ROW && continueTableValidation)
+        {
+            ++numberOfValidatedRows;
+
+            if (!validateTypeId(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+            if (!validateTypeVal(validationObserver, statement.get(), continueValidation))
+            {
+                continue;
+            }
+
+            Row row;
+            if (!validateFieldId(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+            if (!validateFieldVal(validationObserver, statement.get(), row, continueTableValidation))
+            {
+                continue;
+            }
+        }
+        if (result != SQLITE_DONE && (continueTableValidation || result != SQLITE_ROW))
+        {
+            throw ::zserio::SqliteException("Validate: sqlite3_step() failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+    }
+
+    continueValidation = validationObserver.endTable(m_name, numberOfValidatedRows);
+
+    return true;
+}
+
+bool Tpl_string::validateSchema(::zserio::IValidationObserver& validationObserver)
+{
+    ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema tableSchema(
+            get_allocator_ref());
+    ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::getTableSchema(
+            m_db, m_attachedDbName, m_name, tableSchema, get_allocator_ref());
+
+    bool result = true;
+    bool continueValidation = true;
+
+    if (!validateColumnId(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (continueValidation && !validateColumnVal(
+            validationObserver, tableSchema, continueValidation))
+    {
+        result = false;
+    }
+
+    if (!tableSchema.empty())
+    {
+        for (auto it = tableSchema.begin(); it != tableSchema.end() && continueValidation; ++it)
+        {
+            const auto& columnName = it->first;
+            const auto& columnType = it->second.type;
+            ::zserio::string<> errorMessage = ::zserio::string<>(
+                    "superfluous column ", get_allocator_ref());
+            errorMessage += m_name;
+            errorMessage += ".";
+            errorMessage += columnName;
+            errorMessage += " of type ";
+            errorMessage += columnType;
+            errorMessage += " encountered";
+            continueValidation = validationObserver.reportError(m_name, columnName,
+                    ::zserio::Span<::zserio::StringView>(),
+                    ::zserio::IValidationObserver::COLUMN_SUPERFLUOUS,
+                    errorMessage);
+        }
+        result = false;
+    }
+
+    return result;
+}
+
+bool Tpl_string::validateColumnId(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("id", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("id"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Tpl_string.id is missing"));
+        return false;
+    }
+
+    const auto column = search->second;
+    (void)tableSchema.erase(search);
+
+    if (column.type != "INTEGER")
+    {
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "column Tpl_string.id has type '", get_allocator_ref());
+        errorMessage += column.type;
+        errorMessage += "' but 'INTEGER' is expected";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("id"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_TYPE, errorMessage);
+        return false;
+    }
+
+    if (column.isNotNull)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("id"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tpl_string.id is NOT NULL-able, "
+                        "but the column is expected to be NULL-able"));
+        return false;
+    }
+
+    if (!column.isPrimaryKey)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("id"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tpl_string.id is not primary key, "
+                        "but the column is expected to be primary key"));
+        return false;
+    }
+
+    return true;
+}
+
+bool Tpl_string::validateColumnVal(::zserio::IValidationObserver& validationObserver,
+        ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+        bool& continueValidation)
+{
+    auto search = tableSchema.find(::zserio::string<>("val", get_allocator_ref()));
+    if (search == tableSchema.end())
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("val"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::COLUMN_MISSING,
+                ::zserio::makeStringView("column Tpl_string.val is missing"));
+        return false;
+    }
+
+    const auto column = search->second;
+    (void)tableSchema.erase(search);
+
+    if (column.type != "TEXT")
+    {
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "column Tpl_string.val has type '", get_allocator_ref());
+        errorMessage += column.type;
+        errorMessage += "' but 'TEXT' is expected";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("val"),
+                ::zserio::Span<const ::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_TYPE, errorMessage);
+        return false;
+    }
+
+    if (column.isNotNull)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("val"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tpl_string.val is NOT NULL-able, "
+                        "but the column is expected to be NULL-able"));
+        return false;
+    }
+
+    if (column.isPrimaryKey)
+    {
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("val"),
+                ::zserio::Span<::zserio::StringView>(),
+                ::zserio::IValidationObserver::INVALID_COLUMN_CONSTRAINT,
+                ::zserio::makeStringView(
+                        "column Tpl_string.val is primary key, "
+                        "but the column is expected not to be primary key"));
+        return false;
+    }
+
+    return true;
+}
+
+bool Tpl_string::validateTypeId(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 0);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_INTEGER)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Tpl_string.id type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_INTEGER);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("id"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Tpl_string::validateTypeVal(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, bool& continueValidation)
+{
+    const int type = sqlite3_column_type(statement, 1);
+    if (type == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    if (type != SQLITE_TEXT)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>(
+                "Column Tpl_string.val type check failed (", get_allocator_ref());
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(type);
+        errorMessage += " doesn't match to ";
+        errorMessage += ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::sqliteColumnTypeName(SQLITE_TEXT);
+        errorMessage += ")!";
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("val"),
+                getRowKeyValues(rowKeyValuesHolder), ::zserio::IValidationObserver::INVALID_COLUMN_TYPE,
+                errorMessage);
+        return false;
+    }
+
+    return true;
+}
+
+bool Tpl_string::validateFieldId(::zserio::IValidationObserver& validationObserver,
+        sqlite3_stmt* statement, Row& row, bool& continueValidation)
+{
+    if (sqlite3_column_type(statement, 0) == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    const int64_t intValue = sqlite3_column_int64(statement, 0);
+    // range check
+    const uint64_t rangeCheckValue = static_cast<uint64_t>(intValue);
+    const uint64_t lowerBound = UINT32_C(0);
+    const uint64_t upperBound = UINT32_C(4294967295);
+    if (rangeCheckValue > upperBound)
+    {
+        const auto rowKeyValuesHolder = getRowKeyValuesHolder(statement);
+        ::zserio::string<> errorMessage = ::zserio::string<>("Value ", get_allocator_ref());
+        errorMessage += ::zserio::toString(rangeCheckValue, get_allocator_ref());
+        errorMessage += " of Tpl_string.id exceeds the range of ";
+        errorMessage += ::zserio::toString(lowerBound, get_allocator_ref());
+        errorMessage += "..";
+        errorMessage += ::zserio::toString(upperBound, get_allocator_ref());
+        continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("id"),
+                getRowKeyValues(rowKeyValuesHolder),
+                ::zserio::IValidationObserver::VALUE_OUT_OF_RANGE, errorMessage);
+        return false;
+    }
+
+    row.setId(static_cast<uint32_t>(intValue));
+
+    return true;
+}
+
+bool Tpl_string::validateFieldVal(::zserio::IValidationObserver&,
+        sqlite3_stmt* statement, Row& row, bool&)
+{
+    if (sqlite3_column_type(statement, 1) == SQLITE_NULL)
+    {
+        return true;
+    }
+
+    const unsigned char* textValue = sqlite3_column_text(statement, 1);
+    row.setVal(::zserio::string<>(
+            reinterpret_cast<const char*>(textValue), get_allocator_ref()));
+
+    return true;
+}
+
+::zserio::vector<::zserio::string<>> Tpl_string::getRowKeyValuesHolder(sqlite3_stmt* statement)
+{
+    ::zserio::vector<::zserio::string<>> rowKeyValuesHolder{get_allocator_ref()};
+
+    const unsigned char* strValueId = sqlite3_column_text(statement, 0);
+    rowKeyValuesHolder.emplace_back(reinterpret_cast<const char*>(strValueId));
+
+    return rowKeyValuesHolder;
+}
+
+::zserio::vector<::zserio::StringView> Tpl_string::getRowKeyValues(
+            const ::zserio::vector<::zserio::string<>>& rowKeyValuesHolder)
+{
+    ::zserio::vector<::zserio::StringView> rowKeyValues{get_allocator_ref()};
+    (void)::std::transform(rowKeyValuesHolder.begin(), rowKeyValuesHolder.end(),
+            ::std::back_inserter(rowKeyValues),
+            [](const ::zserio::string<>& message) -> ::zserio::StringView { return message; });
+    return rowKeyValues;
+}
+
+void Tpl_string::writeRow(Row& row,
+        const ::std::array<bool, 2>& columnsMapping, sqlite3_stmt& statement)
+{
+    int result = SQLITE_ERROR;
+
+    int index = 1;
+    // field id
+    if (columnsMapping[0])
+    {
+        if (!row.isIdSet())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const int64_t intValue = static_cast<int64_t>(row.getId());
+            result = sqlite3_bind_int64(&statement, index, intValue);
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Tpl_string::WriteRow: sqlite3_bind() for field id failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+    // field val
+    if (columnsMapping[1])
+    {
+        if (!row.isValSet())
+        {
+            result = sqlite3_bind_null(&statement, index);
+        }
+        else
+        {
+            const ::zserio::string<>& stringValue = row.getVal();
+            result = sqlite3_bind_text(&statement, index, stringValue.c_str(), -1, SQLITE_TRANSIENT);
+        }
+        if (result != SQLITE_OK)
+        {
+            throw ::zserio::SqliteException("Tpl_string::WriteRow: sqlite3_bind() for field val failed: ") <<
+                    ::zserio::SqliteErrorCode(result);
+        }
+        ++index;
+    }
+}
+
+void Tpl_string::appendCreateTableToQuery(::zserio::string<>& sqlQuery) const
+{
+    sqlQuery += "CREATE TABLE ";
+    appendTableNameToQuery(sqlQuery);
+    sqlQuery += '(';
+    sqlQuery += "id INTEGER";
+    sqlQuery += ' ';
+    sqlQuery += ::zserio::makeStringView("PRIMARY KEY");
+    sqlQuery += ", val TEXT";
+    sqlQuery += ')';
+}
+
+void Tpl_string::appendTableNameToQuery(::zserio::string<>& sqlQuery) const
+{
+    if (!m_attachedDbName.empty())
+    {
+        sqlQuery += m_attachedDbName;
+        sqlQuery += '.';
+    }
+    sqlQuery += m_name;
+}
+
+::std::array<bool, 2> Tpl_string::createColumnsMapping(::zserio::Span<const ::zserio::string<>> columns)
+{
+    if (columns.empty())
+    {
+        static constexpr ::std::array<bool, 2> allColumns = {true, true};
+        return allColumns;
+    }
+
+    ::std::array<bool, 2> columnsMapping = {};
+    for (const auto& columnName : columns)
+    {
+        const auto it = ::std::find(Tpl_string::columnNames.begin(), Tpl_string::columnNames.end(), ::zserio::StringView(columnName));
+        if (it == Tpl_string::columnNames.end())
+        {
+            throw ::zserio::SqliteException("Column name '") << columnName
+                    << "' doesn't exist in 'Tpl_string'!";
+        }
+        columnsMapping.at(static_cast<size_t>(it - Tpl_string::columnNames.begin())) = true;
+    }
+
+    return columnsMapping;
+}
+
+void Tpl_string::appendColumnsToQuery(::zserio::string<>& sqlQuery, const ::std::array<bool, 2>& columnsMapping,
+        ColumnFormat format)
+{
+    bool isFirst = true;
+    for (size_t i = 0; i < columnsMapping.size(); ++i)
+    {
+        if (columnsMapping[i])
+        {
+            if (isFirst)
+            {
+                isFirst = false;
+            }
+            else
+            {
+                sqlQuery += ", ";
+            }
+            switch (format)
+            {
+                case ColumnFormat::NAME:
+                    sqlQuery += Tpl_string::columnNames[i];
+                    break;
+                case ColumnFormat::SQL_PARAMETER:
+                    sqlQuery += "?";
+                    break;
+                case ColumnFormat::SQL_UPDATE:
+                    sqlQuery += Tpl_string::columnNames[i];
+                    sqlQuery += "=?";
+                    break;
+                default:
+                    break;
+            }
+        }
+    }
+}
+
+uint32_t Tpl_string::Row::getId() const
+{
+    return m_id_.value();
+}
+
+void Tpl_string::Row::setId(uint32_t id_)
+{
+    m_id_ = id_;
+}
+
+void Tpl_string::Row::resetId()
+{
+    m_id_.reset();
+}
+
+bool Tpl_string::Row::isIdSet() const
+{
+    return m_id_.hasValue();
+}
+
+::zserio::string<>& Tpl_string::Row::getVal()
+{
+    return m_val_.value();
+}
+
+const ::zserio::string<>& Tpl_string::Row::getVal() const
+{
+    return m_val_.value();
+}
+
+void Tpl_string::Row::setVal(const ::zserio::string<>& val_)
+{
+    m_val_ = val_;
+}
+
+void Tpl_string::Row::setVal(::zserio::string<>&& val_)
+{
+    m_val_ = ::std::move(val_);
+}
+
+void Tpl_string::Row::resetVal()
+{
+    m_val_.reset();
+}
+
+bool Tpl_string::Row::isValSet() const
+{
+    return m_val_.hasValue();
+}
+
+} // namespace a
diff --git a/cpp/a/Blob.h b/cpp/a/Blob.h
new file mode 100644
index 0000000..1efb2ae
--- /dev/null
+++ b/cpp/a/Blob.h
@@ -0,0 +1,122 @@
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#ifndef A_BLOB_H
+#define A_BLOB_H
+
+#include <zserio/CppRuntimeVersion.h>
+#if CPP_EXTENSION_RUNTIME_VERSION_NUMBER != 1004001
+    #error Version mismatch between Zserio runtime library and Zserio C++ generator!
+    #error Please update your Zserio runtime library to the version 1.4.1.
+#endif
+
+#include <zserio/Traits.h>
+#include <zserio/NoInit.h>
+#include <zserio/BitStreamReader.h>
+#include <zserio/BitStreamWriter.h>
+#include <zserio/AllocatorPropagatingCopy.h>
+#include <memory>
+#include <zserio/Array.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/String.h>
+#include <zserio/Types.h>
+#include <zserio/Vector.h>
+
+namespace a
+{
+
+class Blob
+{
+public:
+    using allocator_type = ::std::allocator<uint8_t>;
+
+    Blob() noexcept :
+            Blob(allocator_type())
+    {}
+
+    explicit Blob(const allocator_type& allocator) noexcept;
+
+    template <typename ZSERIO_T_arr = ::zserio::vector<uint8_t>,
+            typename ZSERIO_T_s = ::zserio::string<>,
+            ::zserio::is_field_constructor_enabled_t<ZSERIO_T_arr, Blob, allocator_type> = 0>
+    Blob(
+            ZSERIO_T_arr&& arr_,
+            ZSERIO_T_s&& s_,
+            const allocator_type& allocator = allocator_type()) :
+            Blob(allocator)
+    {
+        m_arr_ = ZserioArrayType_arr(::std::forward<ZSERIO_T_arr>(arr_));
+        m_s_ = ::std::forward<ZSERIO_T_s>(s_);
+    }
+
+    explicit Blob(::zserio::BitStreamReader& in,
+            uint32_t n_, const allocator_type& allocator = allocator_type());
+
+    ~Blob() = default;
+
+    Blob(const Blob& other);
+    Blob& operator=(const Blob& other);
+
+    Blob(Blob&& other);
+    Blob& operator=(Blob&& other);
+
+    Blob(::zserio::NoInitT,
+            const Blob& other);
+    Blob& assign(::zserio::NoInitT, const Blob& other);
+
+    Blob(::zserio::NoInitT, Blob&& other);
+    Blob& assign(::zserio::NoInitT,
+            Blob&& other);
+
+    Blob(::zserio::PropagateAllocatorT,
+            const Blob& other, const allocator_type& allocator);
+    Blob(::zserio::PropagateAllocatorT, ::zserio::NoInitT,
+            const Blob& other, const allocator_type& allocator);
+
+    void initialize(
+            uint32_t n_);
+    bool isInitialized() const;
+
+    uint32_t getN() const;
+
+    const ::zserio::vector<uint8_t>& getArr() const;
+    ::zserio::vector<uint8_t>& getArr();
+    void setArr(const ::zserio::vector<uint8_t>& arr_);
+    void setArr(::zserio::vector<uint8_t>&& arr_);
+
+    const ::zserio::string<>& getS() const;
+    ::zserio::string<>& getS();
+    void setS(const ::zserio::string<>& s_);
+    void setS(::zserio::string<>&& s_);
+
+    size_t bitSizeOf(size_t bitPosition = 0) const;
+
+    size_t initializeOffsets(size_t bitPosition = 0);
+
+    bool operator==(const Blob& other) const;
+
+    bool operator<(const Blob& other) const;
+
+    uint32_t hashCode() const;
+
+    void write(::zserio::BitStreamWriter& out) const;
+
+private:
+    using ZserioArrayType_arr = ::zserio::Array<::zserio::vector<uint8_t>, ::zserio::StdIntArrayTraits<uint8_t>, ::zserio::ArrayType::NORMAL>;
+
+    ZserioArrayType_arr readArr(::zserio::BitStreamReader& in,
+            const allocator_type& allocator);
+    ::zserio::string<> readS(::zserio::BitStreamReader& in,
+            const allocator_type& allocator);
+
+    uint32_t m_n_;
+    bool m_isInitialized;
+    ZserioArrayType_arr m_arr_;
+    ::zserio::string<> m_s_;
+};
+
+} // namespace a
+
+#endif // A_BLOB_H
diff --git a/cpp/a/Col.h b/cpp/a/Col.h
new file mode 100644
index 0000000..dffcf5d
--- /dev/null
+++ b/cpp/a/Col.h
@@ -0,0 +1,83 @@
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#ifndef A_COL_H
+#define A_COL_H
+
+#include <zserio/CppRuntimeVersion.h>
+#if CPP_EXTENSION_RUNTIME_VERSION_NUMBER != 1004001
+    #error Version mismatch between Zserio runtime library and Zserio C++ generator!
+    #error Please update your Zserio runtime library to the version 1.4.1.
+#endif
+
+#include <array>
+
+#include <zserio/Enums.h>
+#include <zserio/BitStreamReader.h>
+#include <zserio/BitStreamWriter.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/Types.h>
+
+namespace a
+{
+
+enum class Col : uint8_t
+{
+    R = UINT8_C(0),
+    G = UINT8_C(3),
+    B = UINT8_C(4)
+};
+
+} // namespace a
+
+namespace zserio
+{
+
+// This is full specialization of enumeration traits and methods for Col enumeration.
+template <>
+struct EnumTraits<::a::Col>
+{
+    static constexpr ::std::array<const char*, 3> names =
+    {{
+        "R",
+        "G",
+        "B"
+    }};
+
+    static constexpr ::std::array<::a::Col, 3> values =
+    {{
+        ::a::Col::R,
+        ::a::Col::G,
+        ::a::Col::B
+    }};
+
+    static constexpr const char* enumName = "Col";
+};
+
+template <>
+size_t enumToOrdinal<::a::Col>(::a::Col value);
+
+template <>
+::a::Col valueToEnum<::a::Col>(
+        typename ::std::underlying_type<::a::Col>::type rawValue);
+
+template <>
+uint32_t enumHashCode<::a::Col>(::a::Col value);
+
+template <>
+size_t bitSizeOf<::a::Col>(::a::Col value);
+
+template <>
+size_t initializeOffsets<::a::Col>(size_t bitPosition, ::a::Col value);
+
+template <>
+::a::Col read<::a::Col>(::zserio::BitStreamReader& in);
+
+template <>
+void write<::a::Col>(::zserio::BitStreamWriter& out, ::a::Col value);
+
+} // namespace zserio
+
+#endif // A_COL_H
diff --git a/cpp/a/Db.h b/cpp/a/Db.h
new file mode 100644
index 0000000..b88e0e3
--- /dev/null
+++ b/cpp/a/Db.h
@@ -0,0 +1,111 @@
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#ifndef A_DB_H
+#define A_DB_H
+
+#include <zserio/CppRuntimeVersion.h>
+#if CPP_EXTENSION_RUNTIME_VERSION_NUMBER != 1004001
+    #error Version mismatch between Zserio runtime library and Zserio C++ generator!
+    #error Please update your Zserio runtime library to the version 1.4.1.
+#endif
+
+#include <memory>
+#include <array>
+#include <set>
+#include <zserio/Vector.h>
+#include <map>
+#include <zserio/Vector.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/String.h>
+#include <zserio/UniquePtr.h>
+#include <zserio/AllocatorHolder.h>
+#include <zserio/StringView.h>
+#include <zserio/ISqliteDatabase.h>
+#include <zserio/SqliteConnection.h>
+#include <zserio/IValidationObserver.h>
+
+#include <a/Fts.h>
+#include <a/Tab.h>
+#include <a/Tpl_string.h>
+#include <a/Worowid.h>
+
+namespace a
+{
+
+class Db : public ::zserio::ISqliteDatabase,
+        public ::zserio::AllocatorHolder<::std::allocator<uint8_t>>
+{
+public:
+    class IParameterProvider
+    {
+    public:
+        virtual ~IParameterProvider() = default;
+
+        virtual ::a::Tab::IParameterProvider& getT1ParameterProvider() = 0;
+        virtual ::a::Tab::IParameterProvider& getT2ParameterProvider() = 0;
+    };
+
+    using TRelocationMap = ::std::map<::zserio::string<>, ::zserio::string<>>;
+
+    explicit Db(const ::zserio::string<>& dbFileName,
+            const TRelocationMap& tableToDbFileNameRelocationMap = TRelocationMap(),
+            const allocator_type& allocator = allocator_type());
+    explicit Db(const ::zserio::string<>& dbFileName, const allocator_type& allocator);
+    explicit Db(sqlite3* externalConnection,
+            const TRelocationMap& tableToAttachedDbNameRelocationMap = TRelocationMap(),
+            const allocator_type& allocator = allocator_type());
+    explicit Db(sqlite3* externalConnection, const allocator_type& allocator);
+
+    ~Db() override;
+
+    Db(const Db&) = delete;
+    Db& operator=(const Db&) = delete;
+
+    Db(Db&&) = delete;
+    Db& operator=(Db&&) = delete;
+
+    ::zserio::SqliteConnection& connection() noexcept override;
+
+    ::a::Tab& getT1() noexcept;
+    ::a::Tab& getT2() noexcept;
+    ::a::Worowid& getW() noexcept;
+    ::a::Fts& getFts() noexcept;
+    ::a::Tpl_string& getTs() noexcept;
+
+    void createSchema() override;
+    void createSchema(const ::std::set<::zserio::string<>>& withoutRowIdTableNamesBlackList);
+    void deleteSchema() override;
+
+    void validate(::zserio::IValidationObserver& validationObserver, IParameterProvider& parameterProvider);
+
+    static ::zserio::StringView databaseName() noexcept;
+    static const ::std::array<::zserio::StringView, 5>& tableNames() noexcept;
+
+private:
+    void initTables();
+    void attachDatabase(::zserio::StringView fileName, ::zserio::StringView attachedDbName);
+    void detachDatabases();
+
+    static ::zserio::StringView tableNameT1() noexcept;
+    static ::zserio::StringView tableNameT2() noexcept;
+    static ::zserio::StringView tableNameW() noexcept;
+    static ::zserio::StringView tableNameFts() noexcept;
+    static ::zserio::StringView tableNameTs() noexcept;
+
+    ::zserio::SqliteConnection m_db;
+    ::zserio::vector<::zserio::string<>> m_attachedDbList;
+    TRelocationMap m_tableToAttachedDbNameRelocationMap;
+
+    ::zserio::unique_ptr<::a::Tab> m_t1_;
+    ::zserio::unique_ptr<::a::Tab> m_t2_;
+    ::zserio::unique_ptr<::a::Worowid> m_w_;
+    ::zserio::unique_ptr<::a::Fts> m_fts_;
+    ::zserio::unique_ptr<::a::Tpl_string> m_ts_;
+};
+
+} // namespace a
+
+#endif // A_DB_H
diff --git a/cpp/a/Fts.h b/cpp/a/Fts.h
new file mode 100644
index 0000000..e26b77f
--- /dev/null
+++ b/cpp/a/Fts.h
@@ -0,0 +1,168 @@
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#ifndef A_FTS_H
+#define A_FTS_H
+
+#include <zserio/CppRuntimeVersion.h>
+#if CPP_EXTENSION_RUNTIME_VERSION_NUMBER != 1004001
+    #error Version mismatch between Zserio runtime library and Zserio C++ generator!
+    #error Please update your Zserio runtime library to the version 1.4.1.
+#endif
+
+#include <memory>
+#include <sqlite3.h>
+#include <zserio/Vector.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/String.h>
+#include <zserio/AllocatorHolder.h>
+#include <zserio/Span.h>
+#include <zserio/StringView.h>
+#include <zserio/SqliteConnection.h>
+#include <zserio/SqliteFinalizer.h>
+#include <zserio/IValidationObserver.h>
+#include <zserio/ValidationSqliteUtil.h>
+#include <zserio/OptionalHolder.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/String.h>
+
+namespace a
+{
+
+class Fts : public ::zserio::AllocatorHolder<::std::allocator<uint8_t>>
+{
+public:
+    class Row
+    {
+    public:
+        ::zserio::string<>& getContent();
+        const ::zserio::string<>& getContent() const;
+        void setContent(const ::zserio::string<>& content_);
+        void setContent(::zserio::string<>&& content_);
+        void resetContent();
+        bool isContentSet() const;
+
+        ::zserio::string<>& getTitle();
+        const ::zserio::string<>& getTitle() const;
+        void setTitle(const ::zserio::string<>& title_);
+        void setTitle(::zserio::string<>&& title_);
+        void resetTitle();
+        bool isTitleSet() const;
+
+    private:
+        ::zserio::InplaceOptionalHolder<::zserio::string<>> m_content_;
+        ::zserio::InplaceOptionalHolder<::zserio::string<>> m_title_;
+    };
+
+    class Reader : public ::zserio::AllocatorHolder<::std::allocator<uint8_t>>
+    {
+    public:
+        ~Reader() = default;
+
+        Reader(const Reader&) = delete;
+        Reader& operator=(const Reader&) = delete;
+
+        Reader(Reader&&) = default;
+        Reader& operator=(Reader&&) = delete;
+
+        bool hasNext() const noexcept;
+        Row next();
+
+    private:
+        explicit Reader(::zserio::SqliteConnection& db, const ::std::array<bool, 2>& columnsMapping,
+                ::zserio::StringView sqlQuery, const allocator_type& allocator = {});
+        friend class Fts;
+
+        void makeStep();
+
+        ::std::array<bool, 2> m_columnsMapping;
+        ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> m_stmt;
+        int m_lastResult;
+    };
+
+    Fts(::zserio::SqliteConnection& db, ::zserio::StringView tableName,
+            ::zserio::StringView attachedDbName = ::zserio::StringView(),
+            const allocator_type& allocator = allocator_type());
+    Fts(::zserio::SqliteConnection& db, ::zserio::StringView tableName, const allocator_type& allocator);
+
+    ~Fts() = default;
+
+    Fts(const Fts&) = delete;
+    Fts& operator=(const Fts&) = delete;
+
+    Fts(Fts&&) = delete;
+    Fts& operator=(Fts&&) = delete;
+
+    void createTable();
+    void deleteTable();
+
+    Reader createReader(::zserio::StringView condition = {}) const;
+
+    Reader createReader(::zserio::Span<const ::zserio::string<>> columns,
+            ::zserio::StringView condition = {}) const;
+    void write(::zserio::Span<Row> rows, ::zserio::Span<const ::zserio::string<>> columns = {});
+
+    void update(Row& row, ::zserio::StringView whereCondition);
+
+    void update(Row& row,
+             ::zserio::Span<const ::zserio::string<>> columns, ::zserio::StringView whereCondition);
+
+    bool validate(::zserio::IValidationObserver& validationObserver, bool& continueValidation);
+
+    static constexpr ::std::array<::zserio::StringView, 2> columnNames =
+    {{
+        ::zserio::StringView("content", 7),
+        ::zserio::StringView("title", 5)
+    }};
+
+private:
+    bool validateSchema(::zserio::IValidationObserver& validationObserver);
+    bool validateColumnContent(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+    bool validateColumnTitle(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+
+    bool validateTypeContent(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+    bool validateTypeTitle(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+
+    bool validateFieldContent(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+    bool validateFieldTitle(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+
+    ::zserio::vector<::zserio::string<>> getRowKeyValuesHolder(sqlite3_stmt* statement);
+    ::zserio::vector<::zserio::StringView> getRowKeyValues(
+            const ::zserio::vector<::zserio::string<>>& rowKeyValuesHolder);
+
+    void writeRow(Row& row,
+            const ::std::array<bool, 2>& columnsMapping, sqlite3_stmt& statement);
+
+    void appendCreateTableToQuery(::zserio::string<>& sqlQuery) const;
+
+    void appendTableNameToQuery(::zserio::string<>& sqlQuery) const;
+        
+    static ::std::array<bool, 2> createColumnsMapping(::zserio::Span<const ::zserio::string<>> columns);
+    
+    enum class ColumnFormat
+    {
+        NAME,
+        SQL_PARAMETER,
+        SQL_UPDATE
+    };
+    static void appendColumnsToQuery(::zserio::string<>& sqlQuery, const ::std::array<bool, 2>& columnsMapping,
+            ColumnFormat format);
+
+    ::zserio::SqliteConnection& m_db;
+    ::zserio::StringView m_name;
+    ::zserio::StringView m_attachedDbName;
+};
+
+} // namespace a
+
+#endif // A_FTS_H
diff --git a/cpp/a/Msk.h b/cpp/a/Msk.h
new file mode 100644
index 0000000..9b102bb
--- /dev/null
+++ b/cpp/a/Msk.h
@@ -0,0 +1,160 @@
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#ifndef A_MSK_H
+#define A_MSK_H
+
+#include <zserio/CppRuntimeVersion.h>
+#if CPP_EXTENSION_RUNTIME_VERSION_NUMBER != 1004001
+    #error Version mismatch between Zserio runtime library and Zserio C++ generator!
+    #error Please update your Zserio runtime library to the version 1.4.1.
+#endif
+
+#include <zserio/BitStreamReader.h>
+#include <zserio/BitStreamWriter.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/String.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/Types.h>
+
+namespace a
+{
+
+class Msk
+{
+public:
+    using underlying_type = uint8_t;
+
+    enum class Values : underlying_type
+    {
+        A = UINT8_C(1),
+        B = UINT8_C(2),
+        C = UINT8_C(4)
+    };
+
+    constexpr Msk() noexcept :
+            m_value(0)
+    {}
+
+    explicit Msk(::zserio::BitStreamReader& in);
+    constexpr Msk(Values value) noexcept :
+            m_value(static_cast<underlying_type>(value))
+    {}
+
+    constexpr explicit Msk(underlying_type value) noexcept :
+            m_value(value)
+    {}
+
+    ~Msk() = default;
+
+    Msk(const Msk&) = default;
+    Msk& operator=(const Msk&) = default;
+
+    Msk(Msk&&) = default;
+    Msk& operator=(Msk&&) = default;
+
+    constexpr explicit operator underlying_type() const
+    {
+        return m_value;
+    }
+
+    constexpr underlying_type getValue() const
+    {
+        return m_value;
+    }
+
+    size_t bitSizeOf(size_t bitPosition = 0) const;
+
+    size_t initializeOffsets(size_t bitPosition = 0) const;
+
+    uint32_t hashCode() const;
+
+    void write(::zserio::BitStreamWriter& out) const;
+
+    ::zserio::string<> toString(const ::zserio::string<>::allocator_type& allocator =
+            ::zserio::string<>::allocator_type()) const;
+
+private:
+    static underlying_type readValue(::zserio::BitStreamReader& in);
+
+    underlying_type m_value;
+};
+
+inline constexpr bool operator==(const Msk& lhs, const Msk& rhs)
+{
+    return lhs.getValue() == rhs.getValue();
+}
+
+inline constexpr bool operator!=(const Msk& lhs, const Msk& rhs)
+{
+    return lhs.getValue() != rhs.getValue();
+}
+
+inline constexpr bool operator<(const Msk& lhs, const Msk& rhs)
+{
+    return lhs.getValue() < rhs.getValue();
+}
+
+inline constexpr Msk operator|(Msk::Values lhs, Msk::Values rhs)
+{
+    return Msk(static_cast<Msk::underlying_type>(lhs) | static_cast<Msk::underlying_type>(rhs));
+}
+
+inline constexpr Msk operator|(const Msk& lhs, const Msk& rhs)
+{
+    return Msk(lhs.getValue() | rhs.getValue());
+}
+
+inline constexpr Msk operator&(Msk::Values lhs, Msk::Values rhs)
+{
+    return Msk(static_cast<Msk::underlying_type>(lhs) & static_cast<Msk::underlying_type>(rhs));
+}
+
+inline constexpr Msk operator&(const Msk& lhs, const Msk& rhs)
+{
+    return Msk(lhs.getValue() & rhs.getValue());
+}
+
+inline constexpr Msk operator^(Msk::Values lhs, Msk::Values rhs)
+{
+    return Msk(static_cast<Msk::underlying_type>(lhs) ^ static_cast<Msk::underlying_type>(rhs));
+}
+
+inline constexpr Msk operator^(const Msk& lhs, const Msk& rhs)
+{
+    return Msk(lhs.getValue() ^ rhs.getValue());
+}
+
+inline constexpr Msk operator~(Msk::Values lhs)
+{
+    return Msk(static_cast<Msk::underlying_type>(static_cast<Msk::underlying_type>(~static_cast<Msk::underlying_type>(lhs))));
+}
+
+inline constexpr Msk operator~(const Msk& lhs)
+{
+    return Msk(static_cast<Msk::underlying_type>(static_cast<Msk::underlying_type>(~lhs.getValue())));
+}
+
+inline Msk operator|=(Msk& lhs, const Msk& rhs)
+{
+    lhs = Msk(lhs.getValue() | rhs.getValue());
+    return lhs;
+}
+
+inline Msk operator&=(Msk& lhs, const Msk& rhs)
+{
+    lhs = Msk(lhs.getValue() & rhs.getValue());
+    return lhs;
+}
+
+inline Msk operator^=(Msk& lhs, const Msk& rhs)
+{
+    lhs = Msk(lhs.getValue() ^ rhs.getValue());
+    return lhs;
+}
+
+} // namespace a
+
+#endif // A_MSK_H
diff --git a/cpp/a/Simple.h b/cpp/a/Simple.h
new file mode 100644
index 0000000..3a63cb0
--- /dev/null
+++ b/cpp/a/Simple.h
@@ -0,0 +1,81 @@
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#ifndef A_SIMPLE_H
+#define A_SIMPLE_H
+
+#include <zserio/CppRuntimeVersion.h>
+#if CPP_EXTENSION_RUNTIME_VERSION_NUMBER != 1004001
+    #error Version mismatch between Zserio runtime library and Zserio C++ generator!
+    #error Please update your Zserio runtime library to the version 1.4.1.
+#endif
+
+#include <zserio/Traits.h>
+#include <zserio/BitStreamReader.h>
+#include <zserio/BitStreamWriter.h>
+#include <zserio/AllocatorPropagatingCopy.h>
+#include <memory>
+#include <zserio/ArrayTraits.h>
+#include <zserio/Types.h>
+
+namespace a
+{
+
+class Simple
+{
+public:
+    using allocator_type = ::std::allocator<uint8_t>;
+
+    Simple() noexcept :
+            Simple(allocator_type())
+    {}
+
+    explicit Simple(const allocator_type& allocator) noexcept;
+
+    explicit Simple(
+            int32_t x_,
+            const allocator_type& allocator = allocator_type()) :
+            Simple(allocator)
+    {
+        m_x_ = x_;
+    }
+
+    explicit Simple(::zserio::BitStreamReader& in, const allocator_type& allocator = allocator_type());
+
+    ~Simple() = default;
+
+    Simple(const Simple&) = default;
+    Simple& operator=(const Simple&) = default;
+
+    Simple(Simple&&) = default;
+    Simple& operator=(Simple&&) = default;
+
+    Simple(::zserio::PropagateAllocatorT,
+            const Simple& other, const allocator_type& allocator);
+
+    int32_t getX() const;
+    void setX(int32_t x_);
+
+    size_t bitSizeOf(size_t bitPosition = 0) const;
+
+    size_t initializeOffsets(size_t bitPosition = 0);
+
+    bool operator==(const Simple& other) const;
+
+    bool operator<(const Simple& other) const;
+
+    uint32_t hashCode() const;
+
+    void write(::zserio::BitStreamWriter& out) const;
+
+private:
+    int32_t readX(::zserio::BitStreamReader& in);
+
+    int32_t m_x_;
+};
+
+} // namespace a
+
+#endif // A_SIMPLE_H
diff --git a/cpp/a/Tab.h b/cpp/a/Tab.h
new file mode 100644
index 0000000..e362537
--- /dev/null
+++ b/cpp/a/Tab.h
@@ -0,0 +1,356 @@
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#ifndef A_TAB_H
+#define A_TAB_H
+
+#include <zserio/CppRuntimeVersion.h>
+#if CPP_EXTENSION_RUNTIME_VERSION_NUMBER != 1004001
+    #error Version mismatch between Zserio runtime library and Zserio C++ generator!
+    #error Please update your Zserio runtime library to the version 1.4.1.
+#endif
+
+#include <memory>
+#include <sqlite3.h>
+#include <zserio/Vector.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/String.h>
+#include <zserio/AllocatorHolder.h>
+#include <zserio/Span.h>
+#include <zserio/StringView.h>
+#include <zserio/SqliteConnection.h>
+#include <zserio/SqliteFinalizer.h>
+#include <zserio/IValidationObserver.h>
+#include <zserio/ValidationSqliteUtil.h>
+#include <zserio/OptionalHolder.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/String.h>
+#include <zserio/Types.h>
+
+#include <a/Blob.h>
+#include <a/Col.h>
+#include <a/Msk.h>
+#include <a/Simple.h>
+
+namespace a
+{
+
+class Tab : public ::zserio::AllocatorHolder<::std::allocator<uint8_t>>
+{
+public:
+    class Row;
+
+    class IParameterProvider
+    {
+    public:
+        virtual ~IParameterProvider() = default;
+
+        virtual uint32_t getCnt(Row& currentRow) = 0;
+    };
+
+    class Row
+    {
+    public:
+        Row() = default;
+        ~Row() = default;
+
+        Row(const Row& other);
+        Row& operator=(const Row& other);
+
+        Row(Row&& other);
+        Row& operator=(Row&& other);
+
+        int32_t getId() const;
+        void setId(int32_t id_);
+        void resetId();
+        bool isIdSet() const;
+
+        uint64_t getBig() const;
+        void setBig(uint64_t big_);
+        void resetBig();
+        bool isBigSet() const;
+
+        ::zserio::string<>& getName();
+        const ::zserio::string<>& getName() const;
+        void setName(const ::zserio::string<>& name_);
+        void setName(::zserio::string<>&& name_);
+        void resetName();
+        bool isNameSet() const;
+
+        bool getFlag() const;
+        void setFlag(bool flag_);
+        void resetFlag();
+        bool isFlagSet() const;
+
+        float getF() const;
+        void setF(float f_);
+        void resetF();
+        bool isFSet() const;
+
+        double getG() const;
+        void setG(double g_);
+        void resetG();
+        bool isGSet() const;
+
+        ::a::Col getCol() const;
+        void setCol(::a::Col col_);
+        void resetCol();
+        bool isColSet() const;
+
+        ::a::Msk getMsk() const;
+        void setMsk(::a::Msk msk_);
+        void resetMsk();
+        bool isMskSet() const;
+
+        int32_t getLen() const;
+        void setLen(int32_t len_);
+        void resetLen();
+        bool isLenSet() const;
+
+        ::a::Blob& getB1();
+        const ::a::Blob& getB1() const;
+        void setB1(const ::a::Blob& b1_);
+        void setB1(::a::Blob&& b1_);
+        void resetB1();
+        bool isB1Set() const;
+
+        ::a::Blob& getB2();
+        const ::a::Blob& getB2() const;
+        void setB2(const ::a::Blob& b2_);
+        void setB2(::a::Blob&& b2_);
+        void resetB2();
+        bool isB2Set() const;
+
+        ::a::Simple& getS();
+        const ::a::Simple& getS() const;
+        void setS(const ::a::Simple& s_);
+        void setS(::a::Simple&& s_);
+        void resetS();
+        bool isSSet() const;
+
+        uint64_t getU() const;
+        void setU(uint64_t u_);
+        void resetU();
+        bool isUSet() const;
+
+        void initializeChildren(IParameterProvider& parameterProvider);
+
+    private:
+        void reinitializeBlobs();
+
+        ::zserio::InplaceOptionalHolder<int32_t> m_id_;
+        ::zserio::InplaceOptionalHolder<uint64_t> m_big_;
+        ::zserio::InplaceOptionalHolder<::zserio::string<>> m_name_;
+        ::zserio::InplaceOptionalHolder<bool> m_flag_;
+        ::zserio::InplaceOptionalHolder<float> m_f_;
+        ::zserio::InplaceOptionalHolder<double> m_g_;
+        ::zserio::InplaceOptionalHolder<::a::Col> m_col_;
+        ::zserio::InplaceOptionalHolder<::a::Msk> m_msk_;
+        ::zserio::InplaceOptionalHolder<int32_t> m_len_;
+        ::zserio::InplaceOptionalHolder<::a::Blob> m_b1_;
+        ::zserio::InplaceOptionalHolder<::a::Blob> m_b2_;
+        ::zserio::InplaceOptionalHolder<::a::Simple> m_s_;
+        ::zserio::InplaceOptionalHolder<uint64_t> m_u_;
+    };
+
+    class Reader : public ::zserio::AllocatorHolder<::std::allocator<uint8_t>>
+    {
+    public:
+        ~Reader() = default;
+
+        Reader(const Reader&) = delete;
+        Reader& operator=(const Reader&) = delete;
+
+        Reader(Reader&&) = default;
+        Reader& operator=(Reader&&) = delete;
+
+        bool hasNext() const noexcept;
+        Row next();
+
+    private:
+        explicit Reader(::zserio::SqliteConnection& db, IParameterProvider& parameterProvider, const ::std::array<bool, 13>& columnsMapping,
+                ::zserio::StringView sqlQuery, const allocator_type& allocator = {});
+        friend class Tab;
+
+        void makeStep();
+
+        IParameterProvider& m_parameterProvider;
+        ::std::array<bool, 13> m_columnsMapping;
+        ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> m_stmt;
+        int m_lastResult;
+    };
+
+    Tab(::zserio::SqliteConnection& db, ::zserio::StringView tableName,
+            ::zserio::StringView attachedDbName = ::zserio::StringView(),
+            const allocator_type& allocator = allocator_type());
+    Tab(::zserio::SqliteConnection& db, ::zserio::StringView tableName, const allocator_type& allocator);
+
+    ~Tab() = default;
+
+    Tab(const Tab&) = delete;
+    Tab& operator=(const Tab&) = delete;
+
+    Tab(Tab&&) = delete;
+    Tab& operator=(Tab&&) = delete;
+
+    void createTable();
+    void deleteTable();
+
+    Reader createReader(IParameterProvider& parameterProvider, ::zserio::StringView condition = {}) const;
+
+    Reader createReader(IParameterProvider& parameterProvider, ::zserio::Span<const ::zserio::string<>> columns,
+            ::zserio::StringView condition = {}) const;
+    void write(IParameterProvider& parameterProvider, ::zserio::Span<Row> rows, ::zserio::Span<const ::zserio::string<>> columns = {});
+
+    void update(IParameterProvider& parameterProvider, Row& row, ::zserio::StringView whereCondition);
+
+    void update(IParameterProvider& parameterProvider, Row& row,
+             ::zserio::Span<const ::zserio::string<>> columns, ::zserio::StringView whereCondition);
+
+    bool validate(::zserio::IValidationObserver& validationObserver, IParameterProvider& parameterProvider, bool& continueValidation);
+
+    static constexpr ::std::array<::zserio::StringView, 13> columnNames =
+    {{
+        ::zserio::StringView("id", 2),
+        ::zserio::StringView("big", 3),
+        ::zserio::StringView("name", 4),
+        ::zserio::StringView("flag", 4),
+        ::zserio::StringView("f", 1),
+        ::zserio::StringView("g", 1),
+        ::zserio::StringView("col", 3),
+        ::zserio::StringView("msk", 3),
+        ::zserio::StringView("len", 3),
+        ::zserio::StringView("b1", 2),
+        ::zserio::StringView("b2", 2),
+        ::zserio::StringView("s", 1),
+        ::zserio::StringView("u", 1)
+    }};
+
+private:
+    bool validateSchema(::zserio::IValidationObserver& validationObserver);
+    bool validateColumnId(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+    bool validateColumnBig(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+    bool validateColumnName(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+    bool validateColumnFlag(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+    bool validateColumnF(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+    bool validateColumnG(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+    bool validateColumnCol(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+    bool validateColumnMsk(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+    bool validateColumnLen(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+    bool validateColumnB1(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+    bool validateColumnB2(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+    bool validateColumnS(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+    bool validateColumnU(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+
+    bool validateTypeId(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+    bool validateTypeBig(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+    bool validateTypeName(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+    bool validateTypeFlag(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+    bool validateTypeF(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+    bool validateTypeG(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+    bool validateTypeCol(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+    bool validateTypeMsk(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+    bool validateTypeLen(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+    bool validateTypeB1(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+    bool validateTypeB2(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+    bool validateTypeS(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+    bool validateTypeU(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+
+    bool validateFieldId(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+    bool validateFieldBig(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+    bool validateFieldName(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+    bool validateFieldFlag(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+    bool validateFieldF(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+    bool validateFieldG(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+    bool validateFieldCol(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+    bool validateFieldMsk(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+    bool validateFieldLen(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+    bool validateBlobB1(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+    bool validateBlobB2(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, IParameterProvider& parameterProvider, bool& continueValidation);
+    bool validateBlobS(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+    bool validateFieldU(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+
+    ::zserio::vector<::zserio::string<>> getRowKeyValuesHolder(sqlite3_stmt* statement);
+    ::zserio::vector<::zserio::StringView> getRowKeyValues(
+            const ::zserio::vector<::zserio::string<>>& rowKeyValuesHolder);
+
+    void writeRow(IParameterProvider& parameterProvider, Row& row,
+            const ::std::array<bool, 13>& columnsMapping, sqlite3_stmt& statement);
+
+    void appendCreateTableToQuery(::zserio::string<>& sqlQuery) const;
+
+    void appendTableNameToQuery(::zserio::string<>& sqlQuery) const;
+        
+    static ::std::array<bool, 13> createColumnsMapping(::zserio::Span<const ::zserio::string<>> columns);
+    
+    enum class ColumnFormat
+    {
+        NAME,
+        SQL_PARAMETER,
+        SQL_UPDATE
+    };
+    static void appendColumnsToQuery(::zserio::string<>& sqlQuery, const ::std::array<bool, 13>& columnsMapping,
+            ColumnFormat format);
+
+    ::zserio::SqliteConnection& m_db;
+    ::zserio::StringView m_name;
+    ::zserio::StringView m_attachedDbName;
+};
+
+} // namespace a
+
+#endif // A_TAB_H
diff --git a/cpp/a/Tpl_string.h b/cpp/a/Tpl_string.h
new file mode 100644
index 0000000..4f99003
--- /dev/null
+++ b/cpp/a/Tpl_string.h
@@ -0,0 +1,167 @@
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#ifndef A_TPL_STRING_H
+#define A_TPL_STRING_H
+
+#include <zserio/CppRuntimeVersion.h>
+#if CPP_EXTENSION_RUNTIME_VERSION_NUMBER != 1004001
+    #error Version mismatch between Zserio runtime library and Zserio C++ generator!
+    #error Please update your Zserio runtime library to the version 1.4.1.
+#endif
+
+#include <memory>
+#include <sqlite3.h>
+#include <zserio/Vector.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/String.h>
+#include <zserio/AllocatorHolder.h>
+#include <zserio/Span.h>
+#include <zserio/StringView.h>
+#include <zserio/SqliteConnection.h>
+#include <zserio/SqliteFinalizer.h>
+#include <zserio/IValidationObserver.h>
+#include <zserio/ValidationSqliteUtil.h>
+#include <zserio/OptionalHolder.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/String.h>
+#include <zserio/Types.h>
+
+namespace a
+{
+
+class Tpl_string : public ::zserio::AllocatorHolder<::std::allocator<uint8_t>>
+{
+public:
+    class Row
+    {
+    public:
+        uint32_t getId() const;
+        void setId(uint32_t id_);
+        void resetId();
+        bool isIdSet() const;
+
+        ::zserio::string<>& getVal();
+        const ::zserio::string<>& getVal() const;
+        void setVal(const ::zserio::string<>& val_);
+        void setVal(::zserio::string<>&& val_);
+        void resetVal();
+        bool isValSet() const;
+
+    private:
+        ::zserio::InplaceOptionalHolder<uint32_t> m_id_;
+        ::zserio::InplaceOptionalHolder<::zserio::string<>> m_val_;
+    };
+
+    class Reader : public ::zserio::AllocatorHolder<::std::allocator<uint8_t>>
+    {
+    public:
+        ~Reader() = default;
+
+        Reader(const Reader&) = delete;
+        Reader& operator=(const Reader&) = delete;
+
+        Reader(Reader&&) = default;
+        Reader& operator=(Reader&&) = delete;
+
+        bool hasNext() const noexcept;
+        Row next();
+
+    private:
+        explicit Reader(::zserio::SqliteConnection& db, const ::std::array<bool, 2>& columnsMapping,
+                ::zserio::StringView sqlQuery, const allocator_type& allocator = {});
+        friend class Tpl_string;
+
+        void makeStep();
+
+        ::std::array<bool, 2> m_columnsMapping;
+        ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> m_stmt;
+        int m_lastResult;
+    };
+
+    Tpl_string(::zserio::SqliteConnection& db, ::zserio::StringView tableName,
+            ::zserio::StringView attachedDbName = ::zserio::StringView(),
+            const allocator_type& allocator = allocator_type());
+    Tpl_string(::zserio::SqliteConnection& db, ::zserio::StringView tableName, const allocator_type& allocator);
+
+    ~Tpl_string() = default;
+
+    Tpl_string(const Tpl_string&) = delete;
+    Tpl_string& operator=(const Tpl_string&) = delete;
+
+    Tpl_string(Tpl_string&&) = delete;
+    Tpl_string& operator=(Tpl_string&&) = delete;
+
+    void createTable();
+    void deleteTable();
+
+    Reader createReader(::zserio::StringView condition = {}) const;
+
+    Reader createReader(::zserio::Span<const ::zserio::string<>> columns,
+            ::zserio::StringView condition = {}) const;
+    void write(::zserio::Span<Row> rows, ::zserio::Span<const ::zserio::string<>> columns = {});
+
+    void update(Row& row, ::zserio::StringView whereCondition);
+
+    void update(Row& row,
+             ::zserio::Span<const ::zserio::string<>> columns, ::zserio::StringView whereCondition);
+
+    bool validate(::zserio::IValidationObserver& validationObserver, bool& continueValidation);
+
+    static constexpr ::std::array<::zserio::StringView, 2> columnNames =
+    {{
+        ::zserio::StringView("id", 2),
+        ::zserio::StringView("val", 3)
+    }};
+
+private:
+    bool validateSchema(::zserio::IValidationObserver& validationObserver);
+    bool validateColumnId(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+    bool validateColumnVal(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+
+    bool validateTypeId(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+    bool validateTypeVal(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+
+    bool validateFieldId(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+    bool validateFieldVal(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+
+    ::zserio::vector<::zserio::string<>> getRowKeyValuesHolder(sqlite3_stmt* statement);
+    ::zserio::vector<::zserio::StringView> getRowKeyValues(
+            const ::zserio::vector<::zserio::string<>>& rowKeyValuesHolder);
+
+    void writeRow(Row& row,
+            const ::std::array<bool, 2>& columnsMapping, sqlite3_stmt& statement);
+
+    void appendCreateTableToQuery(::zserio::string<>& sqlQuery) const;
+
+    void appendTableNameToQuery(::zserio::string<>& sqlQuery) const;
+        
+    static ::std::array<bool, 2> createColumnsMapping(::zserio::Span<const ::zserio::string<>> columns);
+    
+    enum class ColumnFormat
+    {
+        NAME,
+        SQL_PARAMETER,
+        SQL_UPDATE
+    };
+    static void appendColumnsToQuery(::zserio::string<>& sqlQuery, const ::std::array<bool, 2>& columnsMapping,
+            ColumnFormat format);
+
+    ::zserio::SqliteConnection& m_db;
+    ::zserio::StringView m_name;
+    ::zserio::StringView m_attachedDbName;
+};
+
+} // namespace a
+
+#endif // A_TPL_STRING_H
diff --git a/cpp/a/Worowid.h b/cpp/a/Worowid.h
new file mode 100644
index 0000000..2ee7b6d
--- /dev/null
+++ b/cpp/a/Worowid.h
@@ -0,0 +1,168 @@
+/**
+ * Automatically generated by Zserio C++ generator version 1.4.1 using Zserio core 2.18.2.
+ * Generator setup: writerCode, settersCode, pubsubCode, serviceCode, sqlCode, validationCode, sourcesAmalgamation, stdAllocator.
+ */
+
+#ifndef A_WOROWID_H
+#define A_WOROWID_H
+
+#include <zserio/CppRuntimeVersion.h>
+#if CPP_EXTENSION_RUNTIME_VERSION_NUMBER != 1004001
+    #error Version mismatch between Zserio runtime library and Zserio C++ generator!
+    #error Please update your Zserio runtime library to the version 1.4.1.
+#endif
+
+#include <memory>
+#include <sqlite3.h>
+#include <zserio/Vector.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/String.h>
+#include <zserio/AllocatorHolder.h>
+#include <zserio/Span.h>
+#include <zserio/StringView.h>
+#include <zserio/SqliteConnection.h>
+#include <zserio/SqliteFinalizer.h>
+#include <zserio/IValidationObserver.h>
+#include <zserio/ValidationSqliteUtil.h>
+#include <zserio/OptionalHolder.h>
+#include <zserio/ArrayTraits.h>
+#include <zserio/String.h>
+#include <zserio/Types.h>
+
+namespace a
+{
+
+class Worowid : public ::zserio::AllocatorHolder<::std::allocator<uint8_t>>
+{
+public:
+    class Row
+    {
+    public:
+        ::zserio::string<>& getK();
+        const ::zserio::string<>& getK() const;
+        void setK(const ::zserio::string<>& k_);
+        void setK(::zserio::string<>&& k_);
+        void resetK();
+        bool isKSet() const;
+
+        int8_t getV() const;
+        void setV(int8_t v_);
+        void resetV();
+        bool isVSet() const;
+
+    private:
+        ::zserio::InplaceOptionalHolder<::zserio::string<>> m_k_;
+        ::zserio::InplaceOptionalHolder<int8_t> m_v_;
+    };
+
+    class Reader : public ::zserio::AllocatorHolder<::std::allocator<uint8_t>>
+    {
+    public:
+        ~Reader() = default;
+
+        Reader(const Reader&) = delete;
+        Reader& operator=(const Reader&) = delete;
+
+        Reader(Reader&&) = default;
+        Reader& operator=(Reader&&) = delete;
+
+        bool hasNext() const noexcept;
+        Row next();
+
+    private:
+        explicit Reader(::zserio::SqliteConnection& db, const ::std::array<bool, 2>& columnsMapping,
+                ::zserio::StringView sqlQuery, const allocator_type& allocator = {});
+        friend class Worowid;
+
+        void makeStep();
+
+        ::std::array<bool, 2> m_columnsMapping;
+        ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> m_stmt;
+        int m_lastResult;
+    };
+
+    Worowid(::zserio::SqliteConnection& db, ::zserio::StringView tableName,
+            ::zserio::StringView attachedDbName = ::zserio::StringView(),
+            const allocator_type& allocator = allocator_type());
+    Worowid(::zserio::SqliteConnection& db, ::zserio::StringView tableName, const allocator_type& allocator);
+
+    ~Worowid() = default;
+
+    Worowid(const Worowid&) = delete;
+    Worowid& operator=(const Worowid&) = delete;
+
+    Worowid(Worowid&&) = delete;
+    Worowid& operator=(Worowid&&) = delete;
+
+    void createTable();
+    void createOrdinaryRowIdTable();
+    void deleteTable();
+
+    Reader createReader(::zserio::StringView condition = {}) const;
+
+    Reader createReader(::zserio::Span<const ::zserio::string<>> columns,
+            ::zserio::StringView condition = {}) const;
+    void write(::zserio::Span<Row> rows, ::zserio::Span<const ::zserio::string<>> columns = {});
+
+    void update(Row& row, ::zserio::StringView whereCondition);
+
+    void update(Row& row,
+             ::zserio::Span<const ::zserio::string<>> columns, ::zserio::StringView whereCondition);
+
+    bool validate(::zserio::IValidationObserver& validationObserver, bool& continueValidation);
+
+    static constexpr ::std::array<::zserio::StringView, 2> columnNames =
+    {{
+        ::zserio::StringView("k", 1),
+        ::zserio::StringView("v", 1)
+    }};
+
+private:
+    bool validateSchema(::zserio::IValidationObserver& validationObserver);
+    bool validateColumnK(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+    bool validateColumnV(::zserio::IValidationObserver& validationObserver,
+            ::zserio::ValidationSqliteUtil<::std::allocator<uint8_t>>::TableSchema& tableSchema,
+            bool& continueValidation);
+
+    bool validateTypeK(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+    bool validateTypeV(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, bool& continueValidation);
+
+    bool validateFieldK(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+    bool validateFieldV(::zserio::IValidationObserver& validationObserver,
+            sqlite3_stmt* statement, Row& row, bool& continueValidation);
+
+    ::zserio::vector<::zserio::string<>> getRowKeyValuesHolder(sqlite3_stmt* statement);
+    ::zserio::vector<::zserio::StringView> getRowKeyValues(
+            const ::zserio::vector<::zserio::string<>>& rowKeyValuesHolder);
+
+    void writeRow(Row& row,
+            const ::std::array<bool, 2>& columnsMapping, sqlite3_stmt& statement);
+
+    void appendCreateTableToQuery(::zserio::string<>& sqlQuery) const;
+
+    void appendTableNameToQuery(::zserio::string<>& sqlQuery) const;
+        
+    static ::std::array<bool, 2> createColumnsMapping(::zserio::Span<const ::zserio::string<>> columns);
+    
+    enum class ColumnFormat
+    {
+        NAME,
+        SQL_PARAMETER,
+        SQL_UPDATE
+    };
+    static void appendColumnsToQuery(::zserio::string<>& sqlQuery, const ::std::array<bool, 2>& columnsMapping,
+            ColumnFormat format);
+
+    ::zserio::SqliteConnection& m_db;
+    ::zserio::StringView m_name;
+    ::zserio::StringView m_attachedDbName;
+};
+
+} // namespace a
+
+#endif // A_WOROWID_H
diff --git a/java/a/Blob.java b/java/a/Blob.java
new file mode 100644
index 0000000..a50e92f
--- /dev/null
+++ b/java/a/Blob.java
@@ -0,0 +1,154 @@
+/**
+ * Automatically generated by Zserio Java generator version 1.3.0 using Zserio core 2.18.2.
+ * Generator setup: writerCode, pubsubCode, serviceCode, sqlCode, validationCode.
+ */
+
+package a;
+
+public class Blob implements zserio.runtime.io.Writer, zserio.runtime.SizeOf
+{
+    public Blob(
+            long n_)
+    {
+        this.n_ = n_;
+    }
+
+    public Blob(zserio.runtime.io.BitStreamReader in,
+            long n_)
+            throws java.io.IOException
+    {
+        this.n_ = n_;
+
+        read(in);
+    }
+
+    public Blob(
+            long n_,
+            short[] arr_,
+            java.lang.String s_)
+    {
+        this(n_);
+
+        setArr(arr_);
+        setS(s_);
+    }
+
+    @Override
+    public int bitSizeOf()
+    {
+        return bitSizeOf(0);
+    }
+
+    @Override
+    public int bitSizeOf(long bitPosition)
+    {
+        long endBitPosition = bitPosition;
+
+        endBitPosition += arr_.bitSizeOf(endBitPosition);
+        endBitPosition += zserio.runtime.BitSizeOfCalculator.getBitSizeOfString(s_);
+
+        return (int)(endBitPosition - bitPosition);
+    }
+
+    public long getN()
+    {
+        return this.n_;
+    }
+
+    public short[] getArr()
+    {
+        return (arr_ == null) ? null : arr_.getRawArray();
+    }
+
+    public void setArr(short[] arr_)
+    {
+        this.arr_ = new zserio.runtime.array.Array(
+                new zserio.runtime.array.RawArray.ShortRawArray(arr_),
+                new zserio.runtime.array.ArrayTraits.BitFieldShortArrayTraits((int)(8)),
+                zserio.runtime.array.ArrayType.NORMAL);
+    }
+
+    public java.lang.String getS()
+    {
+        return s_;
+    }
+
+    public void setS(java.lang.String s_)
+    {
+        this.s_ = s_;
+    }
+
+    @Override
+    public boolean equals(java.lang.Object obj)
+    {
+        if (obj instanceof Blob)
+        {
+            final Blob that = (Blob)obj;
+
+            return
+                    this.n_ == that.n_ &&
+                    ((arr_ == null) ? that.arr_ == null : arr_.equals(that.arr_)) &&
+                    ((s_ == null) ? that.s_ == null : s_.equals(that.s_));
+        }
+
+        return false;
+    }
+
+    @Override
+    public int hashCode()
+    {
+        int result = zserio.runtime.HashCodeUtil.HASH_SEED;
+
+        result = zserio.runtime.HashCodeUtil.calcHashCode(result, getN());
+        result = zserio.runtime.HashCodeUtil.calcHashCode(result, arr_);
+        result = zserio.runtime.HashCodeUtil.calcHashCode(result, s_);
+
+        return result;
+    }
+
+    public void read(zserio.runtime.io.BitStreamReader in)
+            throws java.io.IOException
+    {
+        arr_ = new zserio.runtime.array.Array(
+                new zserio.runtime.array.RawArray.ShortRawArray(),
+                new zserio.runtime.array.ArrayTraits.BitFieldShortArrayTraits((int)(8)),
+                zserio.runtime.array.ArrayType.NORMAL);
+        arr_.read(in, (int)(getN()));
+
+        s_ = in.readString();
+    }
+
+    @Override
+    public long initializeOffsets()
+    {
+        return initializeOffsets(0);
+    }
+
+    @Override
+    public long initializeOffsets(long bitPosition)
+    {
+        long endBitPosition = bitPosition;
+
+        endBitPosition = arr_.initializeOffsets(endBitPosition);
+        endBitPosition += zserio.runtime.BitSizeOfCalculator.getBitSizeOfString(s_);
+
+        return endBitPosition;
+    }
+
+    @Override
+    public void write(zserio.runtime.io.BitStreamWriter out) throws java.io.IOException
+    {
+        if (arr_.size() != (int)(getN()))
+        {
+            throw new zserio.runtime.ZserioError("Write: Wrong array length for field Blob.arr: " +
+                    arr_.size() + " != " + (int)(getN()) + "!");
+        }
+        arr_.write(out);
+
+        out.writeString(s_);
+    }
+
+    private final long n_;
+    private zserio.runtime.array.Array arr_;
+    private java.lang.String s_;
+}
diff --git a/java/a/Col.java b/java/a/Col.java
new file mode 100644
index 0000000..755e8dc
--- /dev/null
+++ b/java/a/Col.java
@@ -0,0 +1,95 @@
+/**
+ * Automatically generated by Zserio Java generator version 1.3.0 using Zserio core 2.18.2.
+ * Generator setup: writerCode, pubsubCode, serviceCode, sqlCode, validationCode.
+ */
+
+package a;
+
+public enum Col implements zserio.runtime.io.Writer, zserio.runtime.SizeOf,
+        zserio.runtime.ZserioEnum
+{
+    R((short)0),
+    G((short)3),
+    B((short)4);
+
+    private Col(short value)
+    {
+        this.value = value;
+    }
+
+    public short getValue()
+    {
+        return value;
+    }
+
+    @Override
+    public java.lang.Number getGenericValue()
+    {
+        return value;
+    }
+
+    @Override
+    public int bitSizeOf()
+    {
+        return bitSizeOf(0);
+    }
+
+    @Override
+    public int bitSizeOf(long bitPosition)
+    {
+        return 8;
+    }
+
+    @Override
+    public long initializeOffsets()
+    {
+        return initializeOffsets(0);
+    }
+
+    @Override
+    public long initializeOffsets(long bitPosition) throws zserio.runtime.ZserioError
+    {
+        return bitPosition + bitSizeOf(bitPosition);
+    }
+
+    @Override
+    public void write(zserio.runtime.io.BitStreamWriter out) throws java.io.IOException
+    {
+        out.writeUnsignedByte(getValue());
+    }
+
+    public static Col readEnum(zserio.runtime.io.BitStreamReader in) throws java.io.IOException
+    {
+        return toEnum(in.readUnsignedByte());
+    }
+
+    public static Col toEnum(short value)
+    {
+        switch (value)
+        {
+            case (short)0:
+                return R;
+            case (short)3:
+                return G;
+            case (short)4:
+                return B;
+            default:
+                throw new java.lang.IllegalArgumentException(
+                        "Unknown value for enumeration Col: " + value + "!");
+        }
+    }
+
+    public static Col toEnum(java.lang.String itemName)
+    {
+        if (itemName.equals("R"))
+            return R;
+        if (itemName.equals("G"))
+            return G;
+        if (itemName.equals("B"))
+            return B;
+        throw new java.lang.IllegalArgumentException(
+                "Enum item '" + itemName + "' doesn't exist in enumeration Col!");
+    }
+
+    private short value;
+}
diff --git a/java/a/Db.java b/java/a/Db.java
new file mode 100644
index 0000000..b9e244f
--- /dev/null
+++ b/java/a/Db.java
@@ -0,0 +1,281 @@
+/**
+ * Automatically generated by Zserio Java generator version 1.3.0 using Zserio core 2.18.2.
+ * Generator setup: writerCode, pubsubCode, serviceCode, sqlCode, validationCode.
+ */
+
+package a;
+
+public final class Db implements zserio.runtime.SqlDatabase
+{
+    public static interface ParameterProvider
+    {
+        a.Tab.ParameterProvider getT1ParameterProvider();
+        a.Tab.ParameterProvider getT2ParameterProvider();
+    };
+
+    public Db(java.lang.String fileName) throws java.sql.SQLException
+    {
+        this(fileName, new java.util.HashMap<java.lang.String, java.lang.String>());
+    }
+
+    public Db(java.lang.String fileName,
+            java.util.Map<java.lang.String, java.lang.String> tableToDbFileNameRelocationMap)
+            throws java.sql.SQLException
+    {
+        final java.util.Properties connectionProps = new java.util.Properties();
+        connectionProps.setProperty("flags", "CREATE");
+        final java.lang.String uriPath = "jdbc:sqlite:" + new java.io.File(fileName).toString();
+
+        connection = java.sql.DriverManager.getConnection(uriPath, connectionProps);
+        isExternal = false;
+        attachedDbList = new java.util.ArrayList<java.lang.String>();
+
+        final java.util.Map<java.lang.String, java.lang.String> tableToAttachedDbNameRelocationMap =
+                new java.util.HashMap<java.lang.String, java.lang.String>();
+        final java.util.Map<java.lang.String, java.lang.String> dbFileNameToAttachedDbNameMap =
+                new java.util.HashMap<java.lang.String, java.lang.String>();
+        for (java.util.Map.Entry<java.lang.String, java.lang.String> entry :
+                tableToDbFileNameRelocationMap.entrySet())
+        {
+            final java.lang.String relocatedTableName = entry.getKey();
+            final java.lang.String dbFileName = entry.getValue();
+
+            java.lang.String attachedDbName = dbFileNameToAttachedDbNameMap.get(dbFileName);
+            if (attachedDbName == null)
+            {
+                attachedDbName = "Db" + "_" + relocatedTableName;
+                attachDatabase(dbFileName, attachedDbName);
+                dbFileNameToAttachedDbNameMap.put(dbFileName, attachedDbName);
+            }
+
+            tableToAttachedDbNameRelocationMap.put(relocatedTableName, attachedDbName);
+        }
+
+        initTables(tableToAttachedDbNameRelocationMap);
+    }
+
+    public Db(java.sql.Connection externalConnection)
+    {
+        this(externalConnection, new java.util.HashMap<java.lang.String, java.lang.String>());
+    }
+
+    public Db(java.sql.Connection externalConnection,
+            java.util.Map<java.lang.String, java.lang.String> tableToAttachedDbNameRelocationMap)
+    {
+        connection = externalConnection;
+        isExternal = true;
+        attachedDbList = null;
+
+        initTables(tableToAttachedDbNameRelocationMap);
+    }
+
+    @Override
+    public void close() throws java.sql.SQLException
+    {
+        if (!isExternal)
+        {
+            try
+            {
+                detachDatabases();
+            }
+            finally
+            {
+                connection.close();
+            }
+        }
+    }
+
+    @Override
+    public java.sql.Connection connection()
+    {
+        return connection;
+    }
+
+    public a.Tab getT1()
+    {
+        return this.t1_;
+    }
+
+    public a.Tab getT2()
+    {
+        return this.t2_;
+    }
+
+    public a.Worowid getW()
+    {
+        return this.w_;
+    }
+
+    public a.Fts getFts()
+    {
+        return this.fts_;
+    }
+
+    public a.Tpl_string getTs()
+    {
+        return this.ts_;
+    }
+
+    @Override
+    public void createSchema() throws java.sql.SQLException
+    {
+        final boolean wasTransactionStarted = startTransaction();
+
+        this.t1_.createTable();
+        this.t2_.createTable();
+        this.w_.createTable();
+        this.fts_.createTable();
+        this.ts_.createTable();
+
+        endTransaction(wasTransactionStarted);
+    }
+
+    @Override
+    public void createSchema(java.util.Set<java.lang.String> withoutRowIdTableNamesBlackList)
+            throws java.sql.SQLException
+    {
+        final boolean wasTransactionStarted = startTransaction();
+
+        this.t1_.createTable();
+        this.t2_.createTable();
+        if (withoutRowIdTableNamesBlackList.contains(w_TABLE_NAME))
+            this.w_.createOrdinaryRowIdTable();
+        else
+            this.w_.createTable();
+        this.fts_.createTable();
+        this.ts_.createTable();
+
+        endTransaction(wasTransactionStarted);
+    }
+
+    @Override
+    public void deleteSchema() throws java.sql.SQLException
+    {
+        final boolean wasTransactionStarted = startTransaction();
+
+        this.t1_.deleteTable();
+        this.t2_.deleteTable();
+        this.w_.deleteTable();
+        this.fts_.deleteTable();
+        this.ts_.deleteTable();
+
+        endTransaction(wasTransactionStarted);
+    }
+
+    public zserio.runtime.validation.ValidationReport validate(ParameterProvider parameterProvider)
+            throws java.sql.SQLException
+    {
+        final zserio.runtime.validation.ValidationReport report =
+                new zserio.runtime.validation.ValidationReport();
+        report.add(this.t1_.validate(parameterProvider.getT1ParameterProvider()));
+        report.add(this.t2_.validate(parameterProvider.getT2ParameterProvider()));
+        report.add(this.w_.validate());
+        report.add(this.fts_.validate());
+        report.add(this.ts_.validate());
+
+        return report;
+    }
+
+    public static java.lang.String databaseName()
+    {
+        return DATABASE_NAME;
+    }
+
+    public static java.lang.String[] tableNames()
+    {
+        return new java.lang.String[]
+        {
+            t1_TABLE_NAME,
+            t2_TABLE_NAME,
+            w_TABLE_NAME,
+            fts_TABLE_NAME,
+            ts_TABLE_NAME
+        };
+    }
+
+    private void initTables(java.util.Map<java.lang.String, java.lang.String> tableToAttachedDbNameRelocationMap)
+    {
+        this.t1_ = new a.Tab(connection,
+                tableToAttachedDbNameRelocationMap.get(t1_TABLE_NAME),
+                t1_TABLE_NAME);
+        this.t2_ = new a.Tab(connection,
+                tableToAttachedDbNameRelocationMap.get(t2_TABLE_NAME),
+                t2_TABLE_NAME);
+        this.w_ = new a.Worowid(connection,
+                tableToAttachedDbNameRelocationMap.get(w_TABLE_NAME),
+                w_TABLE_NAME);
+        this.fts_ = new a.Fts(connection,
+                tableToAttachedDbNameRelocationMap.get(fts_TABLE_NAME),
+                fts_TABLE_NAME);
+        this.ts_ = new a.Tpl_string(connection,
+                tableToAttachedDbNameRelocationMap.get(ts_TABLE_NAME),
+                ts_TABLE_NAME);
+    }
+
+    private void executeUpdate(java.lang.String sql) throws java.sql.SQLException
+    {
+        try (final java.sql.Statement statement = connection.createStatement())
+        {
+            statement.executeUpdate(sql);
+        }
+    }
+
+    private void attachDatabase(java.lang.String dbFileName, java.lang.String attachedDbName)
+            throws java.sql.SQLException
+    {
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("ATTACH DATABASE '");
+        sqlQuery.append(new java.io.File(dbFileName).toString());
+        sqlQuery.append("' AS ");
+        sqlQuery.append(attachedDbName);
+        executeUpdate(sqlQuery.toString());
+
+        attachedDbList.add(attachedDbName);
+    }
+
+    private void detachDatabases() throws java.sql.SQLException
+    {
+        for (java.lang.String attachedDbName : attachedDbList)
+        {
+            final java.lang.String sqlQuery = "DETACH DATABASE " + attachedDbName;
+            executeUpdate(sqlQuery);
+        }
+    }
+
+    private boolean startTransaction() throws java.sql.SQLException
+    {
+        boolean wasTransactionStarted = false;
+        if (connection.getAutoCommit())
+        {
+            connection.setAutoCommit(false);
+            wasTransactionStarted = true;
+        }
+
+        return wasTransactionStarted;
+    }
+
+    private void endTransaction(boolean wasTransactionStarted) throws java.sql.SQLException
+    {
+        if (wasTransactionStarted)
+        {
+            connection.commit();
+            connection.setAutoCommit(true);
+        }
+    }
+
+    private static final java.lang.String DATABASE_NAME = "Db";
+    private static final java.lang.String t1_TABLE_NAME = "t1";
+    private static final java.lang.String t2_TABLE_NAME = "t2";
+    private static final java.lang.String w_TABLE_NAME = "w";
+    private static final java.lang.String fts_TABLE_NAME = "fts";
+    private static final java.lang.String ts_TABLE_NAME = "ts";
+
+    private final java.sql.Connection connection;
+    private final boolean isExternal;
+    private final java.util.List<java.lang.String> attachedDbList;
+
+    private a.Tab t1_;
+    private a.Tab t2_;
+    private a.Worowid w_;
+    private a.Fts fts_;
+    private a.Tpl_string ts_;
+}
diff --git a/java/a/Fts.java b/java/a/Fts.java
new file mode 100644
index 0000000..41b1f06
--- /dev/null
+++ b/java/a/Fts.java
@@ -0,0 +1,520 @@
+/**
+ * Automatically generated by Zserio Java generator version 1.3.0 using Zserio core 2.18.2.
+ * Generator setup: writerCode, pubsubCode, serviceCode, sqlCode, validationCode.
+ */
+
+package a;
+
+import java.util.Arrays;
+
+public class Fts
+{
+    public Fts(java.sql.Connection connection, java.lang.String tableName)
+    {
+        this.connection = connection;
+        this.attachedDbName = null;
+        this.tableName = tableName;
+    }
+
+    public Fts(java.sql.Connection connection, java.lang.String attachedDbName,
+            java.lang.String tableName)
+    {
+        this.connection = connection;
+        this.attachedDbName = attachedDbName;
+        this.tableName = tableName;
+    }
+
+    public void createTable() throws java.sql.SQLException
+    {
+        final java.lang.StringBuilder sqlQuery = getCreateTableQuery();
+        executeUpdate(sqlQuery.toString());
+    }
+
+    public void deleteTable() throws java.sql.SQLException
+    {
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("DROP TABLE ");
+        appendTableNameToQuery(sqlQuery);
+        executeUpdate(sqlQuery.toString());
+    }
+
+    public java.util.List<FtsRow> read()
+            throws java.sql.SQLException, java.io.IOException
+    {
+        return read(null, null);
+    }
+
+    public java.util.List<FtsRow> read(
+            java.lang.String condition) throws java.sql.SQLException, java.io.IOException
+    {
+        return read(null, condition);
+    }
+
+    public java.util.List<FtsRow> read(
+            java.lang.String[] colNames) throws java.sql.SQLException, java.io.IOException
+    {
+        return read(colNames, null);
+    }
+
+    public java.util.List<FtsRow> read(
+            java.lang.String[] colNames, java.lang.String condition)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        // assemble sql query
+        final boolean[] columns = createColumnMapping(colNames);
+        
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("SELECT ");
+        appendColumnsToQuery(sqlQuery, columns, ColumnFormat.NAME);
+        sqlQuery.append(" FROM ");
+        appendTableNameToQuery(sqlQuery);
+        if (condition != null)
+        {
+            sqlQuery.append(" WHERE ");
+            sqlQuery.append(condition);
+        }
+
+        // read rows
+        final java.util.List<FtsRow> rows = new java.util.ArrayList<FtsRow>();
+        try (
+            final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString());
+            final java.sql.ResultSet resultSet = statement.executeQuery();
+        )
+        {
+            while (resultSet.next())
+            {
+                final FtsRow row = readRow(columns, resultSet);
+                rows.add(row);
+            }
+        }
+
+        return rows;
+    }
+
+    public void write(java.util.List<FtsRow> rows)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        write(rows, null);
+    }
+
+    public void write(java.util.List<FtsRow> rows, java.lang.String[] colNames)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        // assemble sql query
+        final boolean[] columns = createColumnMapping(colNames);
+
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("INSERT INTO ");
+        appendTableNameToQuery(sqlQuery);
+        sqlQuery.append(" (");
+        appendColumnsToQuery(sqlQuery, columns, ColumnFormat.NAME);
+        sqlQuery.append(") VALUES (");
+        appendColumnsToQuery(sqlQuery, columns, ColumnFormat.SQL_PARAMETER);
+        sqlQuery.append(")");
+
+        // write rows
+        final boolean wasTransactionStarted = startTransaction();
+        try (final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString()))
+        {
+            for (FtsRow row : rows)
+            {
+                writeRow(row, columns, statement);
+                statement.addBatch();
+            }
+            statement.executeBatch();
+        }
+
+        endTransaction(wasTransactionStarted);
+    }
+
+    public void update(FtsRow row, java.lang.String whereCondition)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        update(row, null, whereCondition);
+    }
+
+    public void update(FtsRow row, java.lang.String[] colNames, java.lang.String whereCondition)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        // assemble sql query
+        final boolean[] columns = createColumnMapping(colNames);
+
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("UPDATE ");
+        appendTableNameToQuery(sqlQuery);
+        sqlQuery.append(" SET ");
+        appendColumnsToQuery(sqlQuery, columns, ColumnFormat.SQL_UPDATE);
+        sqlQuery.append(" WHERE ");
+        sqlQuery.append(whereCondition);
+
+        // update row
+        try (final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString()))
+        {
+            writeRow(row, columns, statement);
+            statement.executeUpdate();
+        }
+    }
+
+    public zserio.runtime.validation.ValidationReport validate()
+            throws java.sql.SQLException
+    {
+        final zserio.runtime.validation.ValidationTimer totalValidationTimer =
+                new zserio.runtime.validation.ValidationTimer();
+        totalValidationTimer.start();
+        final java.util.List<zserio.runtime.validation.ValidationError> errors =
+                new java.util.ArrayList<zserio.runtime.validation.ValidationError>();
+        int numberOfValidatedRows = 0;
+        final zserio.runtime.validation.ValidationTimer totalParameterProviderTimer =
+                new zserio.runtime.validation.ValidationTimer();
+
+        if (validateSchema(errors))
+        {
+            final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("SELECT " +
+                    "content, " +
+                    "title" +
+                    " FROM ");
+            appendTableNameToQuery(sqlQuery);
+
+            try (
+                final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString());
+                final java.sql.ResultSet resultSet = statement.executeQuery();
+            )
+            {
+                while (resultSet.next())
+                {
+                    numberOfValidatedRows++;
+
+                    if (!validateTypeContent(errors, resultSet))
+                        continue;
+                    if (!validateTypeTitle(errors, resultSet))
+                        continue;
+                }
+            }
+        }
+
+        totalValidationTimer.stop();
+
+        return new zserio.runtime.validation.ValidationReport(1, numberOfValidatedRows,
+                totalValidationTimer.getDuration(), totalParameterProviderTimer.getDuration(), errors);
+    }
+
+    private boolean[] createColumnMapping(java.lang.String[] colNames)
+    {
+        boolean[] map = new boolean[columnNames.length];
+        if (colNames == null)
+        {
+            Arrays.fill(map, true);
+        }
+        else
+        {
+            Arrays.fill(map, false);
+            for (String colName : colNames)
+            {
+                int idx = -1;
+                for (int i = 0; i < columnNames.length; ++i)
+                {
+                    if (columnNames[i].equals(colName))
+                        idx = i;
+                }
+                if (idx < 0)
+                    throw new zserio.runtime.ZserioError("Column name: '" + colName + "' doesn't exist in 'Fts'!");
+                map[idx] = true;
+            }
+        }
+        return map;
+    }
+
+    private void appendTableNameToQuery(java.lang.StringBuilder sqlQuery)
+    {
+        if (attachedDbName != null)
+        {
+            sqlQuery.append(attachedDbName);
+            sqlQuery.append('.');
+        }
+        sqlQuery.append(tableName);
+    }
+
+    private void appendColumnsToQuery(java.lang.StringBuilder sqlQuery, boolean[] columns, ColumnFormat format)
+    {
+        boolean isFirst = true;
+        for (int i = 0; i < columns.length; ++i)
+        {
+            if (columns[i])
+            {
+                if (!isFirst)
+                {
+                    sqlQuery.append(",");
+                }
+                else
+                {
+                    isFirst = false;
+                }
+                switch (format)
+                {
+                    case NAME:
+                        sqlQuery.append(columnNames[i]);
+                        break;
+                    case SQL_PARAMETER:
+                        sqlQuery.append("?");
+                        break;
+                    case SQL_UPDATE:
+                        sqlQuery.append(columnNames[i]);
+                        sqlQuery.append("=?");
+                        break;
+                }
+            }
+        }
+    }
+
+    private void executeUpdate(java.lang.String sql) throws java.sql.SQLException
+    {
+        try (final java.sql.Statement statement = connection.createStatement())
+        {
+            statement.executeUpdate(sql);
+        }
+    }
+
+    private boolean startTransaction() throws java.sql.SQLException
+    {
+        boolean wasTransactionStarted = false;
+        if (connection.getAutoCommit())
+        {
+            connection.setAutoCommit(false);
+            wasTransactionStarted = true;
+        }
+
+        return wasTransactionStarted;
+    }
+
+    private void endTransaction(boolean wasTransactionStarted) throws java.sql.SQLException
+    {
+        if (wasTransactionStarted)
+        {
+            connection.commit();
+            connection.setAutoCommit(true);
+        }
+    }
+
+    private java.lang.StringBuilder getCreateTableQuery() throws java.sql.SQLException
+    {
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("CREATE VIRTUAL TABLE ");
+        appendTableNameToQuery(sqlQuery);
+        sqlQuery.append(
+                " USING fts4" +
+                "(" +
+                "title TEXT" +
+                ")");
+
+        return sqlQuery;
+    }
+
+    private static FtsRow readRow(boolean[] columns,
+            java.sql.ResultSet resultSet) throws java.sql.SQLException, java.io.IOException
+    {
+        final FtsRow row = new FtsRow();
+        int index = 1;
+
+        // field content
+        if (columns[0])
+        {
+            final java.lang.String valueContent = resultSet.getString(index++);
+            if (!resultSet.wasNull())
+            {
+                row.setContent(valueContent);
+            }
+        }
+
+        // field title
+        if (columns[1])
+        {
+            final java.lang.String valueTitle = resultSet.getString(index);
+            if (!resultSet.wasNull())
+            {
+                row.setTitle(valueTitle);
+            }
+        }
+
+        return row;
+    }
+
+    private static void writeRow(FtsRow row, boolean[] columns, java.sql.PreparedStatement statement)
+            throws java.sql.SQLException
+    {
+        int index = 1;
+
+        // field content
+        if (columns[0])
+        {
+            if (row.isNullContent())
+            {
+                statement.setNull(index++, java.sql.Types.VARCHAR);
+            }
+            else
+            {
+                final java.lang.String value = row.getContent();
+                statement.setString(index++, value);
+            }
+        }
+
+        // field title
+        if (columns[1])
+        {
+            if (row.isNullTitle())
+            {
+                statement.setNull(index, java.sql.Types.VARCHAR);
+            }
+            else
+            {
+                final java.lang.String value = row.getTitle();
+                statement.setString(index, value);
+            }
+        }
+    }
+
+    private boolean validateSchema(java.util.List<zserio.runtime.validation.ValidationError> errors)
+            throws java.sql.SQLException
+    {
+        final java.util.Map<java.lang.String, zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription>
+                schema = zserio.runtime.validation.ValidationSqliteUtil.getTableSchema(connection,
+                        attachedDbName, tableName);
+        boolean result = true;
+
+        if (!validateColumnContent(errors, schema))
+            result = false;
+        if (!validateColumnTitle(errors, schema))
+            result = false;
+
+        if (!schema.isEmpty())
+        {
+            // report superfluous columns
+            for (java.util.Map.Entry<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> entry : schema.entrySet())
+            {
+                final java.lang.String columnName = entry.getKey();
+                final java.lang.String columnType = entry.getValue().getType();
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, columnName,
+                        zserio.runtime.validation.ValidationError.Type.COLUMN_SUPERFLUOUS,
+                        "superfluous column " + tableName + "." + columnName + " of type " + columnType +
+                        " encountered"));
+                result = false;
+            }
+        }
+
+        return result;
+    }
+
+    private boolean validateColumnContent(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("content");
+        if (column == null &&
+                !zserio.runtime.validation.ValidationSqliteUtil.isHiddenColumnInTable(
+                        connection, attachedDbName, tableName, "content"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "content",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Fts.content is missing"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateColumnTitle(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("title");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "title",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Fts.title is missing"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeContent(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(1) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(1));
+            if (type != java.sql.Types.VARCHAR)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "content",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Fts.content type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to TEXT)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeTitle(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(2) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(2));
+            if (type != java.sql.Types.VARCHAR)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "title",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Fts.title type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to TEXT)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private static java.util.List<java.lang.String> getRowKeyValues(java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        final java.util.List<java.lang.String> rowKeyValues = new java.util.ArrayList<java.lang.String>();
+        final java.lang.String valueContent = resultSet.getString(1);
+        rowKeyValues.add((valueContent != null) ? valueContent : "NULL");
+        final java.lang.String valueTitle = resultSet.getString(2);
+        rowKeyValues.add((valueTitle != null) ? valueTitle : "NULL");
+
+        return rowKeyValues;
+    }
+
+    private enum ColumnFormat
+    {
+        NAME,
+        SQL_PARAMETER,
+        SQL_UPDATE
+    };
+
+    private static final java.lang.String[] columnNames =
+    {
+        "content",
+        "title"
+    };
+
+    private final java.sql.Connection connection;
+    private final java.lang.String attachedDbName;
+    private final java.lang.String tableName;
+}
diff --git a/java/a/FtsRow.java b/java/a/FtsRow.java
new file mode 100644
index 0000000..ea1428d
--- /dev/null
+++ b/java/a/FtsRow.java
@@ -0,0 +1,52 @@
+/**
+ * Automatically generated by Zserio Java generator version 1.3.0 using Zserio core 2.18.2.
+ * Generator setup: writerCode, pubsubCode, serviceCode, sqlCode, validationCode.
+ */
+
+package a;
+
+public final class FtsRow
+{
+    public java.lang.String getContent()
+    {
+        return this.content_;
+    }
+
+    public void setContent(java.lang.String content_)
+    {
+        this.content_ = content_;
+    }
+
+    public void setNullContent()
+    {
+        this.content_ = null;
+    }
+
+    public boolean isNullContent()
+    {
+        return this.content_ == null;
+    }
+
+    public java.lang.String getTitle()
+    {
+        return this.title_;
+    }
+
+    public void setTitle(java.lang.String title_)
+    {
+        this.title_ = title_;
+    }
+
+    public void setNullTitle()
+    {
+        this.title_ = null;
+    }
+
+    public boolean isNullTitle()
+    {
+        return this.title_ == null;
+    }
+
+    private java.lang.String content_;
+    private java.lang.String title_;
+}
diff --git a/java/a/Msk.java b/java/a/Msk.java
new file mode 100644
index 0000000..3bbb93d
--- /dev/null
+++ b/java/a/Msk.java
@@ -0,0 +1,133 @@
+/**
+ * Automatically generated by Zserio Java generator version 1.3.0 using Zserio core 2.18.2.
+ * Generator setup: writerCode, pubsubCode, serviceCode, sqlCode, validationCode.
+ */
+
+package a;
+
+public final class Msk implements zserio.runtime.io.Writer, zserio.runtime.SizeOf,
+        zserio.runtime.ZserioBitmask
+{
+    public Msk()
+    {
+        this((short)0);
+    }
+
+    public Msk(short value)
+    {
+        if (value < (short)0 || value > (short)255)
+        {
+            throw new java.lang.IllegalArgumentException(
+                    "Value for bitmask 'Msk' out of bounds: " + value + "!");
+        }
+        this.value = value;
+    }
+
+    public Msk(zserio.runtime.io.BitStreamReader in) throws java.io.IOException
+    {
+        value = in.readUnsignedByte();
+    }
+
+    @Override
+    public int bitSizeOf()
+    {
+        return bitSizeOf(0);
+    }
+
+    @Override
+    public int bitSizeOf(long bitPosition)
+    {
+        return 8;
+    }
+
+    @Override
+    public long initializeOffsets()
+    {
+        return initializeOffsets(0);
+    }
+
+    @Override
+    public long initializeOffsets(long bitPosition)
+    {
+        return bitPosition + bitSizeOf(bitPosition);
+    }
+
+    @Override
+    public boolean equals(java.lang.Object other)
+    {
+        if (!(other instanceof Msk))
+            return false;
+
+        final Msk otherMsk = (Msk)other;
+        return value == otherMsk.value;
+    }
+
+    @Override
+    public int hashCode()
+    {
+        int result = zserio.runtime.HashCodeUtil.HASH_SEED;
+        result = zserio.runtime.HashCodeUtil.calcHashCode(result, value);
+        return result;
+    }
+
+    @Override
+    public java.lang.String toString()
+    {
+        final java.lang.StringBuilder builder = new java.lang.StringBuilder();
+
+        if (this.and(Msk.Values.A).equals(Msk.Values.A))
+            builder.append(builder.length() == 0 ? "A" : " | A");
+        if (this.and(Msk.Values.B).equals(Msk.Values.B))
+            builder.append(builder.length() == 0 ? "B" : " | B");
+        if (this.and(Msk.Values.C).equals(Msk.Values.C))
+            builder.append(builder.length() == 0 ? "C" : " | C");
+
+        return java.lang.String.valueOf(value) + "[" + builder.toString() + "]";
+    }
+
+    @Override
+    public void write(zserio.runtime.io.BitStreamWriter out) throws java.io.IOException
+    {
+        out.writeUnsignedByte(value);
+    }
+
+    public short getValue()
+    {
+        return value;
+    }
+
+    @Override
+    public java.lang.Number getGenericValue()
+    {
+        return value;
+    }
+
+    public Msk or(Msk other)
+    {
+        return new Msk((short)(value | other.value));
+    }
+
+    public Msk and(Msk other)
+    {
+        return new Msk((short)(value & other.value));
+    }
+
+    public Msk xor(Msk other)
+    {
+        return new Msk((short)(value ^ other.value));
+    }
+
+    public Msk not()
+    {
+        return new Msk((short)(~value & (short)255));
+    }
+
+    public static final class Values
+    {
+        public static final Msk A = new Msk((short)1);
+        public static final Msk B = new Msk((short)2);
+        public static final Msk C = new Msk((short)4);
+    }
+
+    private short value;
+}
diff --git a/java/a/Simple.java b/java/a/Simple.java
new file mode 100644
index 0000000..a3dc8ce
--- /dev/null
+++ b/java/a/Simple.java
@@ -0,0 +1,105 @@
+/**
+ * Automatically generated by Zserio Java generator version 1.3.0 using Zserio core 2.18.2.
+ * Generator setup: writerCode, pubsubCode, serviceCode, sqlCode, validationCode.
+ */
+
+package a;
+
+public class Simple implements zserio.runtime.io.Writer, zserio.runtime.SizeOf
+{
+    public Simple()
+    {
+    }
+
+    public Simple(zserio.runtime.io.BitStreamReader in)
+            throws java.io.IOException
+    {
+        read(in);
+    }
+
+    public Simple(
+            int x_)
+    {
+        setX(x_);
+    }
+
+    @Override
+    public int bitSizeOf()
+    {
+        return bitSizeOf(0);
+    }
+
+    @Override
+    public int bitSizeOf(long bitPosition)
+    {
+        long endBitPosition = bitPosition;
+
+        endBitPosition += 32;
+
+        return (int)(endBitPosition - bitPosition);
+    }
+
+    public int getX()
+    {
+        return x_;
+    }
+
+    public void setX(int x_)
+    {
+        this.x_ = x_;
+    }
+
+    @Override
+    public boolean equals(java.lang.Object obj)
+    {
+        if (obj instanceof Simple)
+        {
+            final Simple that = (Simple)obj;
+
+            return
+                    x_ == that.x_;
+        }
+
+        return false;
+    }
+
+    @Override
+    public int hashCode()
+    {
+        int result = zserio.runtime.HashCodeUtil.HASH_SEED;
+
+        result = zserio.runtime.HashCodeUtil.calcHashCode(result, x_);
+
+        return result;
+    }
+
+    public void read(zserio.runtime.io.BitStreamReader in)
+            throws java.io.IOException
+    {
+        x_ = in.readInt();
+    }
+
+    @Override
+    public long initializeOffsets()
+    {
+        return initializeOffsets(0);
+    }
+
+    @Override
+    public long initializeOffsets(long bitPosition)
+    {
+        long endBitPosition = bitPosition;
+
+        endBitPosition += 32;
+
+        return endBitPosition;
+    }
+
+    @Override
+    public void write(zserio.runtime.io.BitStreamWriter out) throws java.io.IOException
+    {
+        out.writeInt(x_);
+    }
+
+    private int x_;
+}
diff --git a/java/a/Tab.java b/java/a/Tab.java
new file mode 100644
index 0000000..c219628
--- /dev/null
+++ b/java/a/Tab.java
@@ -0,0 +1,2164 @@
+/**
+ * Automatically generated by Zserio Java generator version 1.3.0 using Zserio core 2.18.2.
+ * Generator setup: writerCode, pubsubCode, serviceCode, sqlCode, validationCode.
+ */
+
+package a;
+
+import java.util.Arrays;
+
+public class Tab
+{
+    public static interface ParameterProvider
+    {
+        long getCnt(java.sql.ResultSet resultSet);
+    };
+
+    public Tab(java.sql.Connection connection, java.lang.String tableName)
+    {
+        this.connection = connection;
+        this.attachedDbName = null;
+        this.tableName = tableName;
+    }
+
+    public Tab(java.sql.Connection connection, java.lang.String attachedDbName,
+            java.lang.String tableName)
+    {
+        this.connection = connection;
+        this.attachedDbName = attachedDbName;
+        this.tableName = tableName;
+    }
+
+    public void createTable() throws java.sql.SQLException
+    {
+        final java.lang.StringBuilder sqlQuery = getCreateTableQuery();
+        executeUpdate(sqlQuery.toString());
+    }
+
+    public void deleteTable() throws java.sql.SQLException
+    {
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("DROP TABLE ");
+        appendTableNameToQuery(sqlQuery);
+        executeUpdate(sqlQuery.toString());
+    }
+
+    public java.util.List<TabRow> read(ParameterProvider parameterProvider)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        return read(parameterProvider, null, null);
+    }
+
+    public java.util.List<TabRow> read(ParameterProvider parameterProvider,
+            java.lang.String condition) throws java.sql.SQLException, java.io.IOException
+    {
+        return read(parameterProvider, null, condition);
+    }
+
+    public java.util.List<TabRow> read(ParameterProvider parameterProvider,
+            java.lang.String[] colNames) throws java.sql.SQLException, java.io.IOException
+    {
+        return read(parameterProvider, colNames, null);
+    }
+
+    public java.util.List<TabRow> read(ParameterProvider parameterProvider,
+            java.lang.String[] colNames, java.lang.String condition)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        // assemble sql query
+        final boolean[] columns = createColumnMapping(colNames);
+        
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("SELECT ");
+        appendColumnsToQuery(sqlQuery, columns, ColumnFormat.NAME);
+        sqlQuery.append(" FROM ");
+        appendTableNameToQuery(sqlQuery);
+        if (condition != null)
+        {
+            sqlQuery.append(" WHERE ");
+            sqlQuery.append(condition);
+        }
+
+        // read rows
+        final java.util.List<TabRow> rows = new java.util.ArrayList<TabRow>();
+        try (
+            final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString());
+            final java.sql.ResultSet resultSet = statement.executeQuery();
+        )
+        {
+            while (resultSet.next())
+            {
+                final TabRow row = readRow(parameterProvider, columns, resultSet);
+                rows.add(row);
+            }
+        }
+
+        return rows;
+    }
+
+    public void write(java.util.List<TabRow> rows)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        write(rows, null);
+    }
+
+    public void write(java.util.List<TabRow> rows, java.lang.String[] colNames)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        // assemble sql query
+        final boolean[] columns = createColumnMapping(colNames);
+
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("INSERT INTO ");
+        appendTableNameToQuery(sqlQuery);
+        sqlQuery.append(" (");
+        appendColumnsToQuery(sqlQuery, columns, ColumnFormat.NAME);
+        sqlQuery.append(") VALUES (");
+        appendColumnsToQuery(sqlQuery, columns, ColumnFormat.SQL_PARAMETER);
+        sqlQuery.append(")");
+
+        // write rows
+        final boolean wasTransactionStarted = startTransaction();
+        try (final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString()))
+        {
+            for (TabRow row : rows)
+            {
+                writeRow(row, columns, statement);
+                statement.addBatch();
+            }
+            statement.executeBatch();
+        }
+
+        endTransaction(wasTransactionStarted);
+    }
+
+    public void update(TabRow row, java.lang.String whereCondition)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        update(row, null, whereCondition);
+    }
+
+    public void update(TabRow row, java.lang.String[] colNames, java.lang.String whereCondition)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        // assemble sql query
+        final boolean[] columns = createColumnMapping(colNames);
+
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("UPDATE ");
+        appendTableNameToQuery(sqlQuery);
+        sqlQuery.append(" SET ");
+        appendColumnsToQuery(sqlQuery, columns, ColumnFormat.SQL_UPDATE);
+        sqlQuery.append(" WHERE ");
+        sqlQuery.append(whereCondition);
+
+        // update row
+        try (final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString()))
+        {
+            writeRow(row, columns, statement);
+            statement.executeUpdate();
+        }
+    }
+
+    public zserio.runtime.validation.ValidationReport validate(ParameterProvider parameterProvider)
+            throws java.sql.SQLException
+    {
+        final zserio.runtime.validation.ValidationTimer totalValidationTimer =
+                new zserio.runtime.validation.ValidationTimer();
+        totalValidationTimer.start();
+        final java.util.List<zserio.runtime.validation.ValidationError> errors =
+                new java.util.ArrayList<zserio.runtime.validation.ValidationError>();
+        int numberOfValidatedRows = 0;
+        final zserio.runtime.validation.ValidationTimer totalParameterProviderTimer =
+                new zserio.runtime.validation.ValidationTimer();
+
+        if (validateSchema(errors))
+        {
+            final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("SELECT " +
+                    "id, " +
+                    "big, " +
+                    "name, " +
+                    "flag, " +
+                    "f, " +
+                    "g, " +
+                    "col, " +
+                    "msk, " +
+                    "len, " +
+                    "b1, " +
+                    "b2, " +
+                    "s, " +
+                    "u" +
+                    " FROM ");
+            appendTableNameToQuery(sqlQuery);
+
+            try (
+                final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString());
+                final java.sql.ResultSet resultSet = statement.executeQuery();
+            )
+            {
+                while (resultSet.next())
+                {
+                    numberOfValidatedRows++;
+
+                    if (!validateTypeId(errors, resultSet))
+                        continue;
+                    if (!validateTypeBig(errors, resultSet))
+                        continue;
+                    if (!validateTypeName(errors, resultSet))
+                        continue;
+                    if (!validateTypeFlag(errors, resultSet))
+                        continue;
+                    if (!validateTypeF(errors, resultSet))
+                        continue;
+                    if (!validateTypeG(errors, resultSet))
+                        continue;
+                    if (!validateTypeCol(errors, resultSet))
+                        continue;
+                    if (!validateTypeMsk(errors, resultSet))
+                        continue;
+                    if (!validateTypeLen(errors, resultSet))
+                        continue;
+                    if (!validateTypeB1(errors, resultSet))
+                        continue;
+                    if (!validateTypeB2(errors, resultSet))
+                        continue;
+                    if (!validateTypeS(errors, resultSet))
+                        continue;
+                    if (!validateTypeU(errors, resultSet))
+                        continue;
+
+                    final TabRow row = new TabRow();
+                    if (!validateFieldId(errors, resultSet, row))
+                        continue;
+                    if (!validateFieldBig(errors, resultSet, row))
+                        continue;
+                    if (!validateFieldName(errors, resultSet, row))
+                        continue;
+                    if (!validateFieldFlag(errors, resultSet, row))
+                        continue;
+                    if (!validateFieldF(errors, resultSet, row))
+                        continue;
+                    if (!validateFieldG(errors, resultSet, row))
+                        continue;
+                    if (!validateFieldCol(errors, resultSet, row))
+                        continue;
+                    if (!validateFieldMsk(errors, resultSet, row))
+                        continue;
+                    if (!validateFieldLen(errors, resultSet, row))
+                        continue;
+                    if (!validateBlobB1(errors, resultSet, row, parameterProvider,
+                            totalParameterProviderTimer))
+                        continue;
+                    if (!validateBlobB2(errors, resultSet, row, parameterProvider,
+                            totalParameterProviderTimer))
+                        continue;
+                    if (!validateBlobS(errors, resultSet, row, parameterProvider,
+                            totalParameterProviderTimer))
+                        continue;
+                    if (!validateFieldU(errors, resultSet, row))
+                        continue;
+                }
+            }
+        }
+
+        totalValidationTimer.stop();
+
+        return new zserio.runtime.validation.ValidationReport(1, numberOfValidatedRows,
+                totalValidationTimer.getDuration(), totalParameterProviderTimer.getDuration(), errors);
+    }
+
+    private boolean[] createColumnMapping(java.lang.String[] colNames)
+    {
+        boolean[] map = new boolean[columnNames.length];
+        if (colNames == null)
+        {
+            Arrays.fill(map, true);
+        }
+        else
+        {
+            Arrays.fill(map, false);
+            for (String colName : colNames)
+            {
+                int idx = -1;
+                for (int i = 0; i < columnNames.length; ++i)
+                {
+                    if (columnNames[i].equals(colName))
+                        idx = i;
+                }
+                if (idx < 0)
+                    throw new zserio.runtime.ZserioError("Column name: '" + colName + "' doesn't exist in 'Tab'!");
+                map[idx] = true;
+            }
+        }
+        return map;
+    }
+
+    private void appendTableNameToQuery(java.lang.StringBuilder sqlQuery)
+    {
+        if (attachedDbName != null)
+        {
+            sqlQuery.append(attachedDbName);
+            sqlQuery.append('.');
+        }
+        sqlQuery.append(tableName);
+    }
+
+    private void appendColumnsToQuery(java.lang.StringBuilder sqlQuery, boolean[] columns, ColumnFormat format)
+    {
+        boolean isFirst = true;
+        for (int i = 0; i < columns.length; ++i)
+        {
+            if (columns[i])
+            {
+                if (!isFirst)
+                {
+                    sqlQuery.append(",");
+                }
+                else
+                {
+                    isFirst = false;
+                }
+                switch (format)
+                {
+                    case NAME:
+                        sqlQuery.append(columnNames[i]);
+                        break;
+                    case SQL_PARAMETER:
+                        sqlQuery.append("?");
+                        break;
+                    case SQL_UPDATE:
+                        sqlQuery.append(columnNames[i]);
+                        sqlQuery.append("=?");
+                        break;
+                }
+            }
+        }
+    }
+
+    private void executeUpdate(java.lang.String sql) throws java.sql.SQLException
+    {
+        try (final java.sql.Statement statement = connection.createStatement())
+        {
+            statement.executeUpdate(sql);
+        }
+    }
+
+    private boolean startTransaction() throws java.sql.SQLException
+    {
+        boolean wasTransactionStarted = false;
+        if (connection.getAutoCommit())
+        {
+            connection.setAutoCommit(false);
+            wasTransactionStarted = true;
+        }
+
+        return wasTransactionStarted;
+    }
+
+    private void endTransaction(boolean wasTransactionStarted) throws java.sql.SQLException
+    {
+        if (wasTransactionStarted)
+        {
+            connection.commit();
+            connection.setAutoCommit(true);
+        }
+    }
+
+    private java.lang.StringBuilder getCreateTableQuery() throws java.sql.SQLException
+    {
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("CREATE TABLE ");
+        appendTableNameToQuery(sqlQuery);
+        sqlQuery.append(
+                "(" +
+                "id INTEGER" + " " + "PRIMARY KEY NOT NULL" + "," +
+                "big INTEGER" + "," +
+                "name TEXT" + "," +
+                "flag INTEGER" + "," +
+                "f REAL" + "," +
+                "g REAL" + "," +
+                "col INTEGER" + "," +
+                "msk INTEGER" + "," +
+                "len INTEGER" + "," +
+                "b1 BLOB" + "," +
+                "b2 BLOB" + "," +
+                "s BLOB" + "," +
+                "u INTEGER" +
+                ", " +
+                "UNIQUE(name, flag)" +
+                ")");
+
+        return sqlQuery;
+    }
+
+    private static TabRow readRow(ParameterProvider parameterProvider, boolean[] columns,
+            java.sql.ResultSet resultSet) throws java.sql.SQLException, java.io.IOException
+    {
+        final TabRow row = new TabRow();
+        int index = 1;
+
+        // field id
+        if (columns[0])
+        {
+            final int valueId = resultSet.getInt(index++);
+            if (!resultSet.wasNull())
+            {
+                row.setId(valueId);
+            }
+        }
+
+        // field big
+        if (columns[1])
+        {
+            final long valueBig = resultSet.getLong(index++);
+            if (!resultSet.wasNull())
+            {
+                row.setBig(valueBig);
+            }
+        }
+
+        // field name
+        if (columns[2])
+        {
+            final java.lang.String valueName = resultSet.getString(index++);
+            if (!resultSet.wasNull())
+            {
+                row.setName(valueName);
+            }
+        }
+
+        // field flag
+        if (columns[3])
+        {
+            final boolean valueFlag = resultSet.getBoolean(index++);
+            if (!resultSet.wasNull())
+            {
+                row.setFlag(valueFlag);
+            }
+        }
+
+        // field f
+        if (columns[4])
+        {
+            final float valueF = resultSet.getFloat(index++);
+            if (!resultSet.wasNull())
+            {
+                row.setF(valueF);
+            }
+        }
+
+        // field g
+        if (columns[5])
+        {
+            final double valueG = resultSet.getDouble(index++);
+            if (!resultSet.wasNull())
+            {
+                row.setG(valueG);
+            }
+        }
+
+        // field col
+        if (columns[6])
+        {
+            final short valueCol = resultSet.getShort(index++);
+            if (!resultSet.wasNull())
+            {
+                row.setCol(a.Col.toEnum(valueCol));
+            }
+        }
+
+        // field msk
+        if (columns[7])
+        {
+            final short valueMsk = resultSet.getShort(index++);
+            if (!resultSet.wasNull())
+            {
+                row.setMsk(new a.Msk(valueMsk));
+            }
+        }
+
+        // field len
+        if (columns[8])
+        {
+            final int valueLen = resultSet.getInt(index++);
+            if (!resultSet.wasNull())
+            {
+                row.setLen(valueLen);
+            }
+        }
+
+        // field b1
+        if (columns[9])
+        {
+            final byte[] valueB1 = resultSet.getBytes(index++);
+            if (!resultSet.wasNull())
+            {
+                final zserio.runtime.io.ByteArrayBitStreamReader reader =
+                        new zserio.runtime.io.ByteArrayBitStreamReader(valueB1);
+            final a.Blob blob =
+                    new a.Blob(reader,
+                            (long)(row.getLen()));
+                row.setB1(blob);
+            }
+        }
+
+        // field b2
+        if (columns[10])
+        {
+            final byte[] valueB2 = resultSet.getBytes(index++);
+            if (!resultSet.wasNull())
+            {
+                final zserio.runtime.io.ByteArrayBitStreamReader reader =
+                        new zserio.runtime.io.ByteArrayBitStreamReader(valueB2);
+            final long paramN =
+                    parameterProvider.getCnt(resultSet);
+            final a.Blob blob =
+                    new a.Blob(reader,
+                            paramN);
+                row.setB2(blob);
+            }
+        }
+
+        // field s
+        if (columns[11])
+        {
+            final byte[] valueS = resultSet.getBytes(index++);
+            if (!resultSet.wasNull())
+            {
+                final zserio.runtime.io.ByteArrayBitStreamReader reader =
+                        new zserio.runtime.io.ByteArrayBitStreamReader(valueS);
+            final a.Simple blob =
+                    new a.Simple(reader);
+                row.setS(blob);
+            }
+        }
+
+        // field u
+        if (columns[12])
+        {
+            final long valueU = resultSet.getLong(index);
+            if (!resultSet.wasNull())
+            {
+                row.setU(java.math.BigInteger.valueOf(valueU));
+            }
+        }
+
+        return row;
+    }
+
+    private static void writeRow(TabRow row, boolean[] columns, java.sql.PreparedStatement statement)
+            throws java.sql.SQLException
+    {
+        int index = 1;
+
+        // field id
+        if (columns[0])
+        {
+            if (row.isNullId())
+            {
+                statement.setNull(index++, java.sql.Types.INTEGER);
+            }
+            else
+            {
+                final int value = row.getId();
+                statement.setInt(index++, value);
+            }
+        }
+
+        // field big
+        if (columns[1])
+        {
+            if (row.isNullBig())
+            {
+                statement.setNull(index++, java.sql.Types.INTEGER);
+            }
+            else
+            {
+                final long value = row.getBig();
+                statement.setLong(index++, value);
+            }
+        }
+
+        // field name
+        if (columns[2])
+        {
+            if (row.isNullName())
+            {
+                statement.setNull(index++, java.sql.Types.VARCHAR);
+            }
+            else
+            {
+                final java.lang.String value = row.getName();
+                statement.setString(index++, value);
+            }
+        }
+
+        // field flag
+        if (columns[3])
+        {
+            if (row.isNullFlag())
+            {
+                statement.setNull(index++, java.sql.Types.INTEGER);
+            }
+            else
+            {
+                final boolean value = row.getFlag();
+                statement.setBoolean(index++, value);
+            }
+        }
+
+        // field f
+        if (columns[4])
+        {
+            if (row.isNullF())
+            {
+                statement.setNull(index++, java.sql.Types.REAL);
+            }
+            else
+            {
+                final float value = row.getF();
+                statement.setFloat(index++, value);
+            }
+        }
+
+        // field g
+        if (columns[5])
+        {
+            if (row.isNullG())
+            {
+                statement.setNull(index++, java.sql.Types.REAL);
+            }
+            else
+            {
+                final double value = row.getG();
+                statement.setDouble(index++, value);
+            }
+        }
+
+        // field col
+        if (columns[6])
+        {
+            if (row.isNullCol())
+            {
+                statement.setNull(index++, java.sql.Types.INTEGER);
+            }
+            else
+            {
+                final short underlyingValue =
+                        row.getCol().getValue();
+                statement.setShort(index++, underlyingValue);
+            }
+        }
+
+        // field msk
+        if (columns[7])
+        {
+            if (row.isNullMsk())
+            {
+                statement.setNull(index++, java.sql.Types.INTEGER);
+            }
+            else
+            {
+                final short underlyingValue =
+                        row.getMsk().getValue();
+                statement.setShort(index++, underlyingValue);
+            }
+        }
+
+        // field len
+        if (columns[8])
+        {
+            if (row.isNullLen())
+            {
+                statement.setNull(index++, java.sql.Types.INTEGER);
+            }
+            else
+            {
+                final int value = row.getLen();
+                statement.setInt(index++, value);
+            }
+        }
+
+        // field b1
+        if (columns[9])
+        {
+            if (row.isNullB1())
+            {
+                statement.setNull(index++, java.sql.Types.BLOB);
+            }
+            else
+            {
+                final byte[] blobData = zserio.runtime.io.SerializeUtil.serializeToBytes(row.getB1());
+                statement.setBytes(index++, blobData);
+            }
+        }
+
+        // field b2
+        if (columns[10])
+        {
+            if (row.isNullB2())
+            {
+                statement.setNull(index++, java.sql.Types.BLOB);
+            }
+            else
+            {
+                final byte[] blobData = zserio.runtime.io.SerializeUtil.serializeToBytes(row.getB2());
+                statement.setBytes(index++, blobData);
+            }
+        }
+
+        // field s
+        if (columns[11])
+        {
+            if (row.isNullS())
+            {
+                statement.setNull(index++, java.sql.Types.BLOB);
+            }
+            else
+            {
+                final byte[] blobData = zserio.runtime.io.SerializeUtil.serializeToBytes(row.getS());
+                statement.setBytes(index++, blobData);
+            }
+        }
+
+        // field u
+        if (columns[12])
+        {
+            if (row.isNullU())
+            {
+                statement.setNull(index, java.sql.Types.INTEGER);
+            }
+            else
+            {
+                final long bigIntValue = row.getU().longValue();
+                statement.setLong(index, bigIntValue);
+            }
+        }
+    }
+
+    private boolean validateSchema(java.util.List<zserio.runtime.validation.ValidationError> errors)
+            throws java.sql.SQLException
+    {
+        final java.util.Map<java.lang.String, zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription>
+                schema = zserio.runtime.validation.ValidationSqliteUtil.getTableSchema(connection,
+                        attachedDbName, tableName);
+        boolean result = true;
+
+        if (!validateColumnId(errors, schema))
+            result = false;
+        if (!validateColumnBig(errors, schema))
+            result = false;
+        if (!validateColumnName(errors, schema))
+            result = false;
+        if (!validateColumnFlag(errors, schema))
+            result = false;
+        if (!validateColumnF(errors, schema))
+            result = false;
+        if (!validateColumnG(errors, schema))
+            result = false;
+        if (!validateColumnCol(errors, schema))
+            result = false;
+        if (!validateColumnMsk(errors, schema))
+            result = false;
+        if (!validateColumnLen(errors, schema))
+            result = false;
+        if (!validateColumnB1(errors, schema))
+            result = false;
+        if (!validateColumnB2(errors, schema))
+            result = false;
+        if (!validateColumnS(errors, schema))
+            result = false;
+        if (!validateColumnU(errors, schema))
+            result = false;
+
+        if (!schema.isEmpty())
+        {
+            // report superfluous columns
+            for (java.util.Map.Entry<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> entry : schema.entrySet())
+            {
+                final java.lang.String columnName = entry.getKey();
+                final java.lang.String columnType = entry.getValue().getType();
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, columnName,
+                        zserio.runtime.validation.ValidationError.Type.COLUMN_SUPERFLUOUS,
+                        "superfluous column " + tableName + "." + columnName + " of type " + columnType +
+                        " encountered"));
+                result = false;
+            }
+        }
+
+        return result;
+    }
+
+    private boolean validateColumnId(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("id");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "id",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Tab.id is missing"));
+            return false;
+        }
+
+        if (!column.getType().equals("INTEGER"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "id",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                    "column Tab.id has type '" + column.getType() +
+                    "' but 'INTEGER' is expected"));
+            return false;
+        }
+
+        if (!column.isNotNull())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "id",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.id is NULL-able, " +
+                    "but the column is expected to be NOT NULL-able"));
+            return false;
+        }
+
+        if (!column.isPrimaryKey())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "id",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.id is not primary key, " +
+                    "but the column is expected to be primary key"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateColumnBig(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("big");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "big",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Tab.big is missing"));
+            return false;
+        }
+
+        if (!column.getType().equals("INTEGER"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "big",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                    "column Tab.big has type '" + column.getType() +
+                    "' but 'INTEGER' is expected"));
+            return false;
+        }
+
+        if (column.isNotNull())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "big",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.big is NOT NULL-able, " +
+                    "but the column is expected to be NULL-able"));
+            return false;
+        }
+
+        if (column.isPrimaryKey())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "big",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.big is primary key, " +
+                    "but the column is expected not to be primary key"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateColumnName(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("name");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "name",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Tab.name is missing"));
+            return false;
+        }
+
+        if (!column.getType().equals("TEXT"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "name",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                    "column Tab.name has type '" + column.getType() +
+                    "' but 'TEXT' is expected"));
+            return false;
+        }
+
+        if (column.isNotNull())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "name",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.name is NOT NULL-able, " +
+                    "but the column is expected to be NULL-able"));
+            return false;
+        }
+
+        if (column.isPrimaryKey())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "name",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.name is primary key, " +
+                    "but the column is expected not to be primary key"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateColumnFlag(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("flag");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "flag",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Tab.flag is missing"));
+            return false;
+        }
+
+        if (!column.getType().equals("INTEGER"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "flag",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                    "column Tab.flag has type '" + column.getType() +
+                    "' but 'INTEGER' is expected"));
+            return false;
+        }
+
+        if (column.isNotNull())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "flag",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.flag is NOT NULL-able, " +
+                    "but the column is expected to be NULL-able"));
+            return false;
+        }
+
+        if (column.isPrimaryKey())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "flag",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.flag is primary key, " +
+                    "but the column is expected not to be primary key"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateColumnF(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("f");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "f",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Tab.f is missing"));
+            return false;
+        }
+
+        if (!column.getType().equals("REAL"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "f",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                    "column Tab.f has type '" + column.getType() +
+                    "' but 'REAL' is expected"));
+            return false;
+        }
+
+        if (column.isNotNull())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "f",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.f is NOT NULL-able, " +
+                    "but the column is expected to be NULL-able"));
+            return false;
+        }
+
+        if (column.isPrimaryKey())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "f",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.f is primary key, " +
+                    "but the column is expected not to be primary key"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateColumnG(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("g");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "g",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Tab.g is missing"));
+            return false;
+        }
+
+        if (!column.getType().equals("REAL"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "g",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                    "column Tab.g has type '" + column.getType() +
+                    "' but 'REAL' is expected"));
+            return false;
+        }
+
+        if (column.isNotNull())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "g",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.g is NOT NULL-able, " +
+                    "but the column is expected to be NULL-able"));
+            return false;
+        }
+
+        if (column.isPrimaryKey())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "g",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.g is primary key, " +
+                    "but the column is expected not to be primary key"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateColumnCol(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("col");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "col",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Tab.col is missing"));
+            return false;
+        }
+
+        if (!column.getType().equals("INTEGER"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "col",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                    "column Tab.col has type '" + column.getType() +
+                    "' but 'INTEGER' is expected"));
+            return false;
+        }
+
+        if (column.isNotNull())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "col",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.col is NOT NULL-able, " +
+                    "but the column is expected to be NULL-able"));
+            return false;
+        }
+
+        if (column.isPrimaryKey())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "col",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.col is primary key, " +
+                    "but the column is expected not to be primary key"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateColumnMsk(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("msk");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "msk",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Tab.msk is missing"));
+            return false;
+        }
+
+        if (!column.getType().equals("INTEGER"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "msk",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                    "column Tab.msk has type '" + column.getType() +
+                    "' but 'INTEGER' is expected"));
+            return false;
+        }
+
+        if (column.isNotNull())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "msk",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.msk is NOT NULL-able, " +
+                    "but the column is expected to be NULL-able"));
+            return false;
+        }
+
+        if (column.isPrimaryKey())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "msk",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.msk is primary key, " +
+                    "but the column is expected not to be primary key"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateColumnLen(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("len");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "len",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Tab.len is missing"));
+            return false;
+        }
+
+        if (!column.getType().equals("INTEGER"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "len",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                    "column Tab.len has type '" + column.getType() +
+                    "' but 'INTEGER' is expected"));
+            return false;
+        }
+
+        if (column.isNotNull())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "len",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.len is NOT NULL-able, " +
+                    "but the column is expected to be NULL-able"));
+            return false;
+        }
+
+        if (column.isPrimaryKey())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "len",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.len is primary key, " +
+                    "but the column is expected not to be primary key"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateColumnB1(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("b1");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "b1",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Tab.b1 is missing"));
+            return false;
+        }
+
+        if (!column.getType().equals("BLOB"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "b1",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                    "column Tab.b1 has type '" + column.getType() +
+                    "' but 'BLOB' is expected"));
+            return false;
+        }
+
+        if (column.isNotNull())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "b1",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.b1 is NOT NULL-able, " +
+                    "but the column is expected to be NULL-able"));
+            return false;
+        }
+
+        if (column.isPrimaryKey())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "b1",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.b1 is primary key, " +
+                    "but the column is expected not to be primary key"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateColumnB2(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("b2");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "b2",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Tab.b2 is missing"));
+            return false;
+        }
+
+        if (!column.getType().equals("BLOB"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "b2",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                    "column Tab.b2 has type '" + column.getType() +
+                    "' but 'BLOB' is expected"));
+            return false;
+        }
+
+        if (column.isNotNull())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "b2",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.b2 is NOT NULL-able, " +
+                    "but the column is expected to be NULL-able"));
+            return false;
+        }
+
+        if (column.isPrimaryKey())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "b2",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.b2 is primary key, " +
+                    "but the column is expected not to be primary key"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateColumnS(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("s");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "s",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Tab.s is missing"));
+            return false;
+        }
+
+        if (!column.getType().equals("BLOB"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "s",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                    "column Tab.s has type '" + column.getType() +
+                    "' but 'BLOB' is expected"));
+            return false;
+        }
+
+        if (column.isNotNull())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "s",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.s is NOT NULL-able, " +
+                    "but the column is expected to be NULL-able"));
+            return false;
+        }
+
+        if (column.isPrimaryKey())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "s",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.s is primary key, " +
+                    "but the column is expected not to be primary key"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateColumnU(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("u");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "u",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Tab.u is missing"));
+            return false;
+        }
+
+        if (!column.getType().equals("INTEGER"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "u",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                    "column Tab.u has type '" + column.getType() +
+                    "' but 'INTEGER' is expected"));
+            return false;
+        }
+
+        if (column.isNotNull())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "u",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.u is NOT NULL-able, " +
+                    "but the column is expected to be NULL-able"));
+            return false;
+        }
+
+        if (column.isPrimaryKey())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "u",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tab.u is primary key, " +
+                    "but the column is expected not to be primary key"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeId(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(1) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(1));
+            if (type != java.sql.Types.INTEGER)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "id",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Tab.id type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to INTEGER)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeBig(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(2) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(2));
+            if (type != java.sql.Types.INTEGER)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "big",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Tab.big type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to INTEGER)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeName(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(3) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(3));
+            if (type != java.sql.Types.VARCHAR)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "name",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Tab.name type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to TEXT)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeFlag(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(4) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(4));
+            if (type != java.sql.Types.INTEGER)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "flag",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Tab.flag type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to INTEGER)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeF(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(5) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(5));
+            if (type != java.sql.Types.REAL)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "f",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Tab.f type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to REAL)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeG(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(6) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(6));
+            if (type != java.sql.Types.REAL)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "g",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Tab.g type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to REAL)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeCol(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(7) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(7));
+            if (type != java.sql.Types.INTEGER)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "col",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Tab.col type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to INTEGER)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeMsk(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(8) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(8));
+            if (type != java.sql.Types.INTEGER)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "msk",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Tab.msk type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to INTEGER)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeLen(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(9) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(9));
+            if (type != java.sql.Types.INTEGER)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "len",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Tab.len type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to INTEGER)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeB1(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(10) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(10));
+            if (type != java.sql.Types.BLOB)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "b1",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Tab.b1 type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to BLOB)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeB2(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(11) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(11));
+            if (type != java.sql.Types.BLOB)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "b2",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Tab.b2 type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to BLOB)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeS(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(12) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(12));
+            if (type != java.sql.Types.BLOB)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "s",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Tab.s type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to BLOB)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeU(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(13) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(13));
+            if (type != java.sql.Types.INTEGER)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "u",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Tab.u type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to INTEGER)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateFieldId(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet,
+            TabRow row) throws java.sql.SQLException
+    {
+        final long value = resultSet.getLong(1);
+        if (!resultSet.wasNull())
+        {
+            final long lowerBound = -2147483648;
+            final long upperBound = 2147483647;
+            if (value < lowerBound || value > upperBound)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "id",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.VALUE_OUT_OF_RANGE,
+                        "Value " + value + " of Tab.id exceeds the range of " +
+                        lowerBound + ".." + upperBound));
+                return false;
+            }
+            row.setId((int)value);
+        }
+
+        return true;
+    }
+
+    private boolean validateFieldBig(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet,
+            TabRow row) throws java.sql.SQLException
+    {
+        final long value = resultSet.getLong(2);
+        if (!resultSet.wasNull())
+        {
+            final long lowerBound = 0L;
+            final long upperBound = 1152921504606846975L;
+            if (value < lowerBound || value > upperBound)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "big",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.VALUE_OUT_OF_RANGE,
+                        "Value " + value + " of Tab.big exceeds the range of " +
+                        lowerBound + ".." + upperBound));
+                return false;
+            }
+            row.setBig((long)value);
+        }
+
+        return true;
+    }
+
+    private boolean validateFieldName(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet,
+            TabRow row) throws java.sql.SQLException
+    {
+        final java.lang.String value = resultSet.getString(3);
+        if (!resultSet.wasNull())
+        {
+            row.setName(value);
+        }
+
+        return true;
+    }
+
+    private boolean validateFieldFlag(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet,
+            TabRow row) throws java.sql.SQLException
+    {
+        final boolean value = resultSet.getBoolean(4);
+        if (!resultSet.wasNull())
+        {
+            row.setFlag(value);
+        }
+
+        return true;
+    }
+
+    private boolean validateFieldF(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet,
+            TabRow row) throws java.sql.SQLException
+    {
+        final float value = resultSet.getFloat(5);
+        if (!resultSet.wasNull())
+        {
+            row.setF(value);
+        }
+
+        return true;
+    }
+
+    private boolean validateFieldG(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet,
+            TabRow row) throws java.sql.SQLException
+    {
+        final double value = resultSet.getDouble(6);
+        if (!resultSet.wasNull())
+        {
+            row.setG(value);
+        }
+
+        return true;
+    }
+
+    private boolean validateFieldCol(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet,
+            TabRow row) throws java.sql.SQLException
+    {
+        final long value = resultSet.getLong(7);
+        if (!resultSet.wasNull())
+        {
+            final long lowerBound = (short)0;
+            final long upperBound = (short)255;
+            if (value < lowerBound || value > upperBound)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "col",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.VALUE_OUT_OF_RANGE,
+                        "Value " + value + " of Tab.col exceeds the range of " +
+                        lowerBound + ".." + upperBound));
+                return false;
+            }
+            try
+            {
+                a.Col.toEnum((short)value);
+            }
+            catch (java.lang.IllegalArgumentException exception)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "col",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_ENUM_VALUE,
+                        "Enumeration value " + value + " of Tab.col is not valid!"));
+                return false;
+            }
+            row.setCol(
+                    a.Col.toEnum((short)value));
+        }
+
+        return true;
+    }
+
+    private boolean validateFieldMsk(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet,
+            TabRow row) throws java.sql.SQLException
+    {
+        final long value = resultSet.getLong(8);
+        if (!resultSet.wasNull())
+        {
+            final long lowerBound = (short)0;
+            final long upperBound = (short)255;
+            if (value < lowerBound || value > upperBound)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "msk",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.VALUE_OUT_OF_RANGE,
+                        "Value " + value + " of Tab.msk exceeds the range of " +
+                        lowerBound + ".." + upperBound));
+                return false;
+            }
+            row.setMsk(
+                    new a.Msk((short)value));
+        }
+
+        return true;
+    }
+
+    private boolean validateFieldLen(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet,
+            TabRow row) throws java.sql.SQLException
+    {
+        final long value = resultSet.getLong(9);
+        if (!resultSet.wasNull())
+        {
+            final long lowerBound = -2147483648;
+            final long upperBound = 2147483647;
+            if (value < lowerBound || value > upperBound)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "len",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.VALUE_OUT_OF_RANGE,
+                        "Value " + value + " of Tab.len exceeds the range of " +
+                        lowerBound + ".." + upperBound));
+                return false;
+            }
+            row.setLen((int)value);
+        }
+
+        return true;
+    }
+
+    private boolean validateBlobB1(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.sql.ResultSet resultSet, TabRow row, ParameterProvider parameterProvider, 
+            zserio.runtime.validation.ValidationTimer totalParameterProviderTimer) throws java.sql.SQLException
+    {
+        final byte[] blobData = resultSet.getBytes(10);
+        if (blobData != null)
+        {
+            try (
+                final zserio.runtime.validation.ValidationBitStreamReader reader =
+                        new zserio.runtime.validation.ValidationBitStreamReader(blobData);
+                final zserio.runtime.io.ByteArrayBitStreamWriter writer =
+                        new zserio.runtime.io.ByteArrayBitStreamWriter();
+            )
+            {
+                totalParameterProviderTimer.start();
+                totalParameterProviderTimer.stop();
+                final a.Blob blob =
+                        new a.Blob(reader,
+                                (long)(row.getLen()));
+
+                row.setB1(blob);
+                blob.write(writer);
+
+                final byte[] maskedOriginalBlob = reader.toMaskedByteArray();
+                final byte[] writtenBlob = writer.toByteArray();
+                if (maskedOriginalBlob.length != writtenBlob.length)
+                {
+                    errors.add(new zserio.runtime.validation.ValidationError(tableName, "b1",
+                            getRowKeyValues(resultSet),
+                            zserio.runtime.validation.ValidationError.Type.BLOB_COMPARE_FAILED,
+                            "Blob binary compare failed because of " + "length (" + maskedOriginalBlob.length +
+                            " != " + writtenBlob.length + ")"));
+                    return false;
+                }
+                else
+                {
+                    boolean hasError = false;
+                    for (int i = 0; i < maskedOriginalBlob.length; ++i)
+                    {
+                        if (maskedOriginalBlob[i] != writtenBlob[i])
+                        {
+                            errors.add(new zserio.runtime.validation.ValidationError(tableName,
+                                    "b1", getRowKeyValues(resultSet),
+                                    zserio.runtime.validation.ValidationError.Type.BLOB_COMPARE_FAILED,
+                                    "Blob binary compare failed at byte position " + i));
+                            hasError = true;
+                        }
+                    }
+                    if (hasError)
+                        return false;
+                }
+            }
+            catch (java.io.IOException exception)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "b1",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.BLOB_PARSE_FAILED, exception));
+                return false;
+            }
+            catch (java.lang.RuntimeException exception)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "b1",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.BLOB_PARSE_FAILED, exception));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateBlobB2(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.sql.ResultSet resultSet, TabRow row, ParameterProvider parameterProvider, 
+            zserio.runtime.validation.ValidationTimer totalParameterProviderTimer) throws java.sql.SQLException
+    {
+        final byte[] blobData = resultSet.getBytes(11);
+        if (blobData != null)
+        {
+            try (
+                final zserio.runtime.validation.ValidationBitStreamReader reader =
+                        new zserio.runtime.validation.ValidationBitStreamReader(blobData);
+                final zserio.runtime.io.ByteArrayBitStreamWriter writer =
+                        new zserio.runtime.io.ByteArrayBitStreamWriter();
+            )
+            {
+                totalParameterProviderTimer.start();
+                final long paramN =
+                        parameterProvider.getCnt(resultSet);
+                totalParameterProviderTimer.stop();
+                final a.Blob blob =
+                        new a.Blob(reader,
+                                paramN);
+
+                row.setB2(blob);
+                blob.write(writer);
+
+                final byte[] maskedOriginalBlob = reader.toMaskedByteArray();
+                final byte[] writtenBlob = writer.toByteArray();
+                if (maskedOriginalBlob.length != writtenBlob.length)
+                {
+                    errors.add(new zserio.runtime.validation.ValidationError(tableName, "b2",
+                            getRowKeyValues(resultSet),
+                            zserio.runtime.validation.ValidationError.Type.BLOB_COMPARE_FAILED,
+                            "Blob binary compare failed because of " + "length (" + maskedOriginalBlob.length +
+                            " != " + writtenBlob.length + ")"));
+                    return false;
+                }
+                else
+                {
+                    boolean hasError = false;
+                    for (int i = 0; i < maskedOriginalBlob.length; ++i)
+                    {
+                        if (maskedOriginalBlob[i] != writtenBlob[i])
+                        {
+                            errors.add(new zserio.runtime.validation.ValidationError(tableName,
+                                    "b2", getRowKeyValues(resultSet),
+                                    zserio.runtime.validation.ValidationError.Type.BLOB_COMPARE_FAILED,
+                                    "Blob binary compare failed at byte position " + i));
+                            hasError = true;
+                        }
+                    }
+                    if (hasError)
+                        return false;
+                }
+            }
+            catch (java.io.IOException exception)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "b2",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.BLOB_PARSE_FAILED, exception));
+                return false;
+            }
+            catch (java.lang.RuntimeException exception)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "b2",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.BLOB_PARSE_FAILED, exception));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateBlobS(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.sql.ResultSet resultSet, TabRow row, ParameterProvider parameterProvider, 
+            zserio.runtime.validation.ValidationTimer totalParameterProviderTimer) throws java.sql.SQLException
+    {
+        final byte[] blobData = resultSet.getBytes(12);
+        if (blobData != null)
+        {
+            try (
+                final zserio.runtime.validation.ValidationBitStreamReader reader =
+                        new zserio.runtime.validation.ValidationBitStreamReader(blobData);
+                final zserio.runtime.io.ByteArrayBitStreamWriter writer =
+                        new zserio.runtime.io.ByteArrayBitStreamWriter();
+            )
+            {
+                totalParameterProviderTimer.start();
+                totalParameterProviderTimer.stop();
+                final a.Simple blob =
+                        new a.Simple(reader);
+
+                row.setS(blob);
+                blob.write(writer);
+
+                final byte[] maskedOriginalBlob = reader.toMaskedByteArray();
+                final byte[] writtenBlob = writer.toByteArray();
+                if (maskedOriginalBlob.length != writtenBlob.length)
+                {
+                    errors.add(new zserio.runtime.validation.ValidationError(tableName, "s",
+                            getRowKeyValues(resultSet),
+                            zserio.runtime.validation.ValidationError.Type.BLOB_COMPARE_FAILED,
+                            "Blob binary compare failed because of " + "length (" + maskedOriginalBlob.length +
+                            " != " + writtenBlob.length + ")"));
+                    return false;
+                }
+                else
+                {
+                    boolean hasError = false;
+                    for (int i = 0; i < maskedOriginalBlob.length; ++i)
+                    {
+                        if (maskedOriginalBlob[i] != writtenBlob[i])
+                        {
+                            errors.add(new zserio.runtime.validation.ValidationError(tableName,
+                                    "s", getRowKeyValues(resultSet),
+                                    zserio.runtime.validation.ValidationError.Type.BLOB_COMPARE_FAILED,
+                                    "Blob binary compare failed at byte position " + i));
+                            hasError = true;
+                        }
+                    }
+                    if (hasError)
+                        return false;
+                }
+            }
+            catch (java.io.IOException exception)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "s",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.BLOB_PARSE_FAILED, exception));
+                return false;
+            }
+            catch (java.lang.RuntimeException exception)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "s",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.BLOB_PARSE_FAILED, exception));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateFieldU(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet,
+            TabRow row) throws java.sql.SQLException
+    {
+        final long value = resultSet.getLong(13);
+        if (!resultSet.wasNull())
+        {
+            row.setU(java.math.BigInteger.valueOf(value));
+        }
+
+        return true;
+    }
+
+    private static java.util.List<java.lang.String> getRowKeyValues(java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        final java.util.List<java.lang.String> rowKeyValues = new java.util.ArrayList<java.lang.String>();
+        final java.lang.String valueId = resultSet.getString(1);
+        rowKeyValues.add((valueId != null) ? valueId : "NULL");
+
+        return rowKeyValues;
+    }
+
+    private enum ColumnFormat
+    {
+        NAME,
+        SQL_PARAMETER,
+        SQL_UPDATE
+    };
+
+    private static final java.lang.String[] columnNames =
+    {
+        "id",
+        "big",
+        "name",
+        "flag",
+        "f",
+        "g",
+        "col",
+        "msk",
+        "len",
+        "b1",
+        "b2",
+        "s",
+        "u"
+    };
+
+    private final java.sql.Connection connection;
+    private final java.lang.String attachedDbName;
+    private final java.lang.String tableName;
+}
diff --git a/java/a/TabRow.java b/java/a/TabRow.java
new file mode 100644
index 0000000..187da0c
--- /dev/null
+++ b/java/a/TabRow.java
@@ -0,0 +1,301 @@
+/**
+ * Automatically generated by Zserio Java generator version 1.3.0 using Zserio core 2.18.2.
+ * Generator setup: writerCode, pubsubCode, serviceCode, sqlCode, validationCode.
+ */
+
+package a;
+
+public final class TabRow
+{
+    public int getId()
+    {
+        return this.id_;
+    }
+
+    public void setId(int id_)
+    {
+        isIdNull = false;
+        this.id_ = id_;
+    }
+
+    public void setNullId()
+    {
+        isIdNull = true;
+        this.id_ = (int)0;
+    }
+
+    public boolean isNullId()
+    {
+        return isIdNull;
+    }
+
+    public long getBig()
+    {
+        return this.big_;
+    }
+
+    public void setBig(long big_)
+    {
+        isBigNull = false;
+        this.big_ = big_;
+    }
+
+    public void setNullBig()
+    {
+        isBigNull = true;
+        this.big_ = (long)0;
+    }
+
+    public boolean isNullBig()
+    {
+        return isBigNull;
+    }
+
+    public java.lang.String getName()
+    {
+        return this.name_;
+    }
+
+    public void setName(java.lang.String name_)
+    {
+        this.name_ = name_;
+    }
+
+    public void setNullName()
+    {
+        this.name_ = null;
+    }
+
+    public boolean isNullName()
+    {
+        return this.name_ == null;
+    }
+
+    public boolean getFlag()
+    {
+        return this.flag_;
+    }
+
+    public void setFlag(boolean flag_)
+    {
+        isFlagNull = false;
+        this.flag_ = flag_;
+    }
+
+    public void setNullFlag()
+    {
+        isFlagNull = true;
+        this.flag_ = false;
+    }
+
+    public boolean isNullFlag()
+    {
+        return isFlagNull;
+    }
+
+    public float getF()
+    {
+        return this.f_;
+    }
+
+    public void setF(float f_)
+    {
+        isFNull = false;
+        this.f_ = f_;
+    }
+
+    public void setNullF()
+    {
+        isFNull = true;
+        this.f_ = (float)0;
+    }
+
+    public boolean isNullF()
+    {
+        return isFNull;
+    }
+
+    public double getG()
+    {
+        return this.g_;
+    }
+
+    public void setG(double g_)
+    {
+        isGNull = false;
+        this.g_ = g_;
+    }
+
+    public void setNullG()
+    {
+        isGNull = true;
+        this.g_ = (double)0;
+    }
+
+    public boolean isNullG()
+    {
+        return isGNull;
+    }
+
+    public a.Col getCol()
+    {
+        return this.col_;
+    }
+
+    public void setCol(a.Col col_)
+    {
+        this.col_ = col_;
+    }
+
+    public void setNullCol()
+    {
+        this.col_ = null;
+    }
+
+    public boolean isNullCol()
+    {
+        return this.col_ == null;
+    }
+
+    public a.Msk getMsk()
+    {
+        return this.msk_;
+    }
+
+    public void setMsk(a.Msk msk_)
+    {
+        this.msk_ = msk_;
+    }
+
+    public void setNullMsk()
+    {
+        this.msk_ = null;
+    }
+
+    public boolean isNullMsk()
+    {
+        return this.msk_ == null;
+    }
+
+    public int getLen()
+    {
+        return this.len_;
+    }
+
+    public void setLen(int len_)
+    {
+        isLenNull = false;
+        this.len_ = len_;
+    }
+
+    public void setNullLen()
+    {
+        isLenNull = true;
+        this.len_ = (int)0;
+    }
+
+    public boolean isNullLen()
+    {
+        return isLenNull;
+    }
+
+    public a.Blob getB1()
+    {
+        return this.b1_;
+    }
+
+    public void setB1(a.Blob b1_)
+    {
+        this.b1_ = b1_;
+    }
+
+    public void setNullB1()
+    {
+        this.b1_ = null;
+    }
+
+    public boolean isNullB1()
+    {
+        return this.b1_ == null;
+    }
+
+    public a.Blob getB2()
+    {
+        return this.b2_;
+    }
+
+    public void setB2(a.Blob b2_)
+    {
+        this.b2_ = b2_;
+    }
+
+    public void setNullB2()
+    {
+        this.b2_ = null;
+    }
+
+    public boolean isNullB2()
+    {
+        return this.b2_ == null;
+    }
+
+    public a.Simple getS()
+    {
+        return this.s_;
+    }
+
+    public void setS(a.Simple s_)
+    {
+        this.s_ = s_;
+    }
+
+    public void setNullS()
+    {
+        this.s_ = null;
+    }
+
+    public boolean isNullS()
+    {
+        return this.s_ == null;
+    }
+
+    public java.math.BigInteger getU()
+    {
+        return this.u_;
+    }
+
+    public void setU(java.math.BigInteger u_)
+    {
+        this.u_ = u_;
+    }
+
+    public void setNullU()
+    {
+        this.u_ = null;
+    }
+
+    public boolean isNullU()
+    {
+        return this.u_ == null;
+    }
+
+    private boolean isIdNull = true;
+    private int id_;
+    private boolean isBigNull = true;
+    private long big_;
+    private java.lang.String name_;
+    private boolean isFlagNull = true;
+    private boolean flag_;
+    private boolean isFNull = true;
+    private float f_;
+    private boolean isGNull = true;
+    private double g_;
+    private a.Col col_;
+    private a.Msk msk_;
+    private boolean isLenNull = true;
+    private int len_;
+    private a.Blob b1_;
+    private a.Blob b2_;
+    private a.Simple s_;
+    private java.math.BigInteger u_;
+}
diff --git a/java/a/Tpl_string.java b/java/a/Tpl_string.java
new file mode 100644
index 0000000..c0129c1
--- /dev/null
+++ b/java/a/Tpl_string.java
@@ -0,0 +1,613 @@
+/**
+ * Automatically generated by Zserio Java generator version 1.3.0 using Zserio core 2.18.2.
+ * Generator setup: writerCode, pubsubCode, serviceCode, sqlCode, validationCode.
+ */
+
+package a;
+
+import java.util.Arrays;
+
+public class Tpl_string
+{
+    public Tpl_string(java.sql.Connection connection, java.lang.String tableName)
+    {
+        this.connection = connection;
+        this.attachedDbName = null;
+        this.tableName = tableName;
+    }
+
+    public Tpl_string(java.sql.Connection connection, java.lang.String attachedDbName,
+            java.lang.String tableName)
+    {
+        this.connection = connection;
+        this.attachedDbName = attachedDbName;
+        this.tableName = tableName;
+    }
+
+    public void createTable() throws java.sql.SQLException
+    {
+        final java.lang.StringBuilder sqlQuery = getCreateTableQuery();
+        executeUpdate(sqlQuery.toString());
+    }
+
+    public void deleteTable() throws java.sql.SQLException
+    {
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("DROP TABLE ");
+        appendTableNameToQuery(sqlQuery);
+        executeUpdate(sqlQuery.toString());
+    }
+
+    public java.util.List<Tpl_stringRow> read()
+            throws java.sql.SQLException, java.io.IOException
+    {
+        return read(null, null);
+    }
+
+    public java.util.List<Tpl_stringRow> read(
+            java.lang.String condition) throws java.sql.SQLException, java.io.IOException
+    {
+        return read(null, condition);
+    }
+
+    public java.util.List<Tpl_stringRow> read(
+            java.lang.String[] colNames) throws java.sql.SQLException, java.io.IOException
+    {
+        return read(colNames, null);
+    }
+
+    public java.util.List<Tpl_stringRow> read(
+            java.lang.String[] colNames, java.lang.String condition)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        // assemble sql query
+        final boolean[] columns = createColumnMapping(colNames);
+        
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("SELECT ");
+        appendColumnsToQuery(sqlQuery, columns, ColumnFormat.NAME);
+        sqlQuery.append(" FROM ");
+        appendTableNameToQuery(sqlQuery);
+        if (condition != null)
+        {
+            sqlQuery.append(" WHERE ");
+            sqlQuery.append(condition);
+        }
+
+        // read rows
+        final java.util.List<Tpl_stringRow> rows = new java.util.ArrayList<Tpl_stringRow>();
+        try (
+            final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString());
+            final java.sql.ResultSet resultSet = statement.executeQuery();
+        )
+        {
+            while (resultSet.next())
+            {
+                final Tpl_stringRow row = readRow(columns, resultSet);
+                rows.add(row);
+            }
+        }
+
+        return rows;
+    }
+
+    public void write(java.util.List<Tpl_stringRow> rows)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        write(rows, null);
+    }
+
+    public void write(java.util.List<Tpl_stringRow> rows, java.lang.String[] colNames)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        // assemble sql query
+        final boolean[] columns = createColumnMapping(colNames);
+
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("INSERT INTO ");
+        appendTableNameToQuery(sqlQuery);
+        sqlQuery.append(" (");
+        appendColumnsToQuery(sqlQuery, columns, ColumnFormat.NAME);
+        sqlQuery.append(") VALUES (");
+        appendColumnsToQuery(sqlQuery, columns, ColumnFormat.SQL_PARAMETER);
+        sqlQuery.append(")");
+
+        // write rows
+        final boolean wasTransactionStarted = startTransaction();
+        try (final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString()))
+        {
+            for (Tpl_stringRow row : rows)
+            {
+                writeRow(row, columns, statement);
+                statement.addBatch();
+            }
+            statement.executeBatch();
+        }
+
+        endTransaction(wasTransactionStarted);
+    }
+
+    public void update(Tpl_stringRow row, java.lang.String whereCondition)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        update(row, null, whereCondition);
+    }
+
+    public void update(Tpl_stringRow row, java.lang.String[] colNames, java.lang.String whereCondition)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        // assemble sql query
+        final boolean[] columns = createColumnMapping(colNames);
+
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("UPDATE ");
+        appendTableNameToQuery(sqlQuery);
+        sqlQuery.append(" SET ");
+        appendColumnsToQuery(sqlQuery, columns, ColumnFormat.SQL_UPDATE);
+        sqlQuery.append(" WHERE ");
+        sqlQuery.append(whereCondition);
+
+        // update row
+        try (final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString()))
+        {
+            writeRow(row, columns, statement);
+            statement.executeUpdate();
+        }
+    }
+
+    public zserio.runtime.validation.ValidationReport validate()
+            throws java.sql.SQLException
+    {
+        final zserio.runtime.validation.ValidationTimer totalValidationTimer =
+                new zserio.runtime.validation.ValidationTimer();
+        totalValidationTimer.start();
+        final java.util.List<zserio.runtime.validation.ValidationError> errors =
+                new java.util.ArrayList<zserio.runtime.validation.ValidationError>();
+        int numberOfValidatedRows = 0;
+        final zserio.runtime.validation.ValidationTimer totalParameterProviderTimer =
+                new zserio.runtime.validation.ValidationTimer();
+
+        if (validateSchema(errors))
+        {
+            final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("SELECT " +
+                    "id, " +
+                    "val" +
+                    " FROM ");
+            appendTableNameToQuery(sqlQuery);
+
+            try (
+                final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString());
+                final java.sql.ResultSet resultSet = statement.executeQuery();
+            )
+            {
+                while (resultSet.next())
+                {
+                    numberOfValidatedRows++;
+
+                    if (!validateTypeId(errors, resultSet))
+                        continue;
+                    if (!validateTypeVal(errors, resultSet))
+                        continue;
+
+                    final Tpl_stringRow row = new Tpl_stringRow();
+                    if (!validateFieldId(errors, resultSet, row))
+                        continue;
+                    if (!validateFieldVal(errors, resultSet, row))
+                        continue;
+                }
+            }
+        }
+
+        totalValidationTimer.stop();
+
+        return new zserio.runtime.validation.ValidationReport(1, numberOfValidatedRows,
+                totalValidationTimer.getDuration(), totalParameterProviderTimer.getDuration(), errors);
+    }
+
+    private boolean[] createColumnMapping(java.lang.String[] colNames)
+    {
+        boolean[] map = new boolean[columnNames.length];
+        if (colNames == null)
+        {
+            Arrays.fill(map, true);
+        }
+        else
+        {
+            Arrays.fill(map, false);
+            for (String colName : colNames)
+            {
+                int idx = -1;
+                for (int i = 0; i < columnNames.length; ++i)
+                {
+                    if (columnNames[i].equals(colName))
+                        idx = i;
+                }
+                if (idx < 0)
+                    throw new zserio.runtime.ZserioError("Column name: '" + colName + "' doesn't exist in 'Tpl_string'!");
+                map[idx] = true;
+            }
+        }
+        return map;
+    }
+
+    private void appendTableNameToQuery(java.lang.StringBuilder sqlQuery)
+    {
+        if (attachedDbName != null)
+        {
+            sqlQuery.append(attachedDbName);
+            sqlQuery.append('.');
+        }
+        sqlQuery.append(tableName);
+    }
+
+    private void appendColumnsToQuery(java.lang.StringBuilder sqlQuery, boolean[] columns, ColumnFormat format)
+    {
+        boolean isFirst = true;
+        for (int i = 0; i < columns.length; ++i)
+        {
+            if (columns[i])
+            {
+                if (!isFirst)
+                {
+                    sqlQuery.append(",");
+                }
+                else
+                {
+                    isFirst = false;
+                }
+                switch (format)
+                {
+                    case NAME:
+                        sqlQuery.append(columnNames[i]);
+                        break;
+                    case SQL_PARAMETER:
+                        sqlQuery.append("?");
+                        break;
+                    case SQL_UPDATE:
+                        sqlQuery.append(columnNames[i]);
+                        sqlQuery.append("=?");
+                        break;
+                }
+            }
+        }
+    }
+
+    private void executeUpdate(java.lang.String sql) throws java.sql.SQLException
+    {
+        try (final java.sql.Statement statement = connection.createStatement())
+        {
+            statement.executeUpdate(sql);
+        }
+    }
+
+    private boolean startTransaction() throws java.sql.SQLException
+    {
+        boolean wasTransactionStarted = false;
+        if (connection.getAutoCommit())
+        {
+            connection.setAutoCommit(false);
+            wasTransactionStarted = true;
+        }
+
+        return wasTransactionStarted;
+    }
+
+    private void endTransaction(boolean wasTransactionStarted) throws java.sql.SQLException
+    {
+        if (wasTransactionStarted)
+        {
+            connection.commit();
+            connection.setAutoCommit(true);
+        }
+    }
+
+    private java.lang.StringBuilder getCreateTableQuery() throws java.sql.SQLException
+    {
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("CREATE TABLE ");
+        appendTableNameToQuery(sqlQuery);
+        sqlQuery.append(
+                "(" +
+                "id INTEGER" + " " + "PRIMARY KEY" + "," +
+                "val TEXT" +
+                ")");
+
+        return sqlQuery;
+    }
+
+    private static Tpl_stringRow readRow(boolean[] columns,
+            java.sql.ResultSet resultSet) throws java.sql.SQLException, java.io.IOException
+    {
+        final Tpl_stringRow row = new Tpl_stringRow();
+        int index = 1;
+
+        // field id
+        if (columns[0])
+        {
+            final long valueId = resultSet.getLong(index++);
+            if (!resultSet.wasNull())
+            {
+                row.setId(valueId);
+            }
+        }
+
+        // field val
+        if (columns[1])
+        {
+            final java.lang.String valueVal = resultSet.getString(index);
+            if (!resultSet.wasNull())
+            {
+                row.setVal(valueVal);
+            }
+        }
+
+        return row;
+    }
+
+    private static void writeRow(Tpl_stringRow row, boolean[] columns, java.sql.PreparedStatement statement)
+            throws java.sql.SQLException
+    {
+        int index = 1;
+
+        // field id
+        if (columns[0])
+        {
+            if (row.isNullId())
+            {
+                statement.setNull(index++, java.sql.Types.INTEGER);
+            }
+            else
+            {
+                final long value = row.getId();
+                statement.setLong(index++, value);
+            }
+        }
+
+        // field val
+        if (columns[1])
+        {
+            if (row.isNullVal())
+            {
+                statement.setNull(index, java.sql.Types.VARCHAR);
+            }
+            else
+            {
+                final java.lang.String value = row.getVal();
+                statement.setString(index, value);
+            }
+        }
+    }
+
+    private boolean validateSchema(java.util.List<zserio.runtime.validation.ValidationError> errors)
+            throws java.sql.SQLException
+    {
+        final java.util.Map<java.lang.String, zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription>
+                schema = zserio.runtime.validation.ValidationSqliteUtil.getTableSchema(connection,
+                        attachedDbName, tableName);
+        boolean result = true;
+
+        if (!validateColumnId(errors, schema))
+            result = false;
+        if (!validateColumnVal(errors, schema))
+            result = false;
+
+        if (!schema.isEmpty())
+        {
+            // report superfluous columns
+            for (java.util.Map.Entry<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> entry : schema.entrySet())
+            {
+                final java.lang.String columnName = entry.getKey();
+                final java.lang.String columnType = entry.getValue().getType();
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, columnName,
+                        zserio.runtime.validation.ValidationError.Type.COLUMN_SUPERFLUOUS,
+                        "superfluous column " + tableName + "." + columnName + " of type " + columnType +
+                        " encountered"));
+                result = false;
+            }
+        }
+
+        return result;
+    }
+
+    private boolean validateColumnId(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("id");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "id",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Tpl_string.id is missing"));
+            return false;
+        }
+
+        if (!column.getType().equals("INTEGER"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "id",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                    "column Tpl_string.id has type '" + column.getType() +
+                    "' but 'INTEGER' is expected"));
+            return false;
+        }
+
+        if (column.isNotNull())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "id",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tpl_string.id is NOT NULL-able, " +
+                    "but the column is expected to be NULL-able"));
+            return false;
+        }
+
+        if (!column.isPrimaryKey())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "id",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tpl_string.id is not primary key, " +
+                    "but the column is expected to be primary key"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateColumnVal(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("val");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "val",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Tpl_string.val is missing"));
+            return false;
+        }
+
+        if (!column.getType().equals("TEXT"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "val",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                    "column Tpl_string.val has type '" + column.getType() +
+                    "' but 'TEXT' is expected"));
+            return false;
+        }
+
+        if (column.isNotNull())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "val",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tpl_string.val is NOT NULL-able, " +
+                    "but the column is expected to be NULL-able"));
+            return false;
+        }
+
+        if (column.isPrimaryKey())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "val",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Tpl_string.val is primary key, " +
+                    "but the column is expected not to be primary key"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeId(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(1) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(1));
+            if (type != java.sql.Types.INTEGER)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "id",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Tpl_string.id type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to INTEGER)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeVal(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(2) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(2));
+            if (type != java.sql.Types.VARCHAR)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "val",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Tpl_string.val type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to TEXT)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateFieldId(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet,
+            Tpl_stringRow row) throws java.sql.SQLException
+    {
+        final long value = resultSet.getLong(1);
+        if (!resultSet.wasNull())
+        {
+            final long lowerBound = 0L;
+            final long upperBound = 4294967295L;
+            if (value < lowerBound || value > upperBound)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "id",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.VALUE_OUT_OF_RANGE,
+                        "Value " + value + " of Tpl_string.id exceeds the range of " +
+                        lowerBound + ".." + upperBound));
+                return false;
+            }
+            row.setId((long)value);
+        }
+
+        return true;
+    }
+
+    private boolean validateFieldVal(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet,
+            Tpl_stringRow row) throws java.sql.SQLException
+    {
+        final java.lang.String value = resultSet.getString(2);
+        if (!resultSet.wasNull())
+        {
+            row.setVal(value);
+        }
+
+        return true;
+    }
+
+    private static java.util.List<java.lang.String> getRowKeyValues(java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        final java.util.List<java.lang.String> rowKeyValues = new java.util.ArrayList<java.lang.String>();
+        final java.lang.String valueId = resultSet.getString(1);
+        rowKeyValues.add((valueId != null) ? valueId : "NULL");
+
+        return rowKeyValues;
+    }
+
+    private enum ColumnFormat
+    {
+        NAME,
+        SQL_PARAMETER,
+        SQL_UPDATE
+    };
+
+    private static final java.lang.String[] columnNames =
+    {
+        "id",
+        "val"
+    };
+
+    private final java.sql.Connection connection;
+    private final java.lang.String attachedDbName;
+    private final java.lang.String tableName;
+}
diff --git a/java/a/Tpl_stringRow.java b/java/a/Tpl_stringRow.java
new file mode 100644
index 0000000..a298a0c
--- /dev/null
+++ b/java/a/Tpl_stringRow.java
@@ -0,0 +1,55 @@
+/**
+ * Automatically generated by Zserio Java generator version 1.3.0 using Zserio core 2.18.2.
+ * Generator setup: writerCode, pubsubCode, serviceCode, sqlCode, validationCode.
+ */
+
+package a;
+
+public final class Tpl_stringRow
+{
+    public long getId()
+    {
+        return this.id_;
+    }
+
+    public void setId(long id_)
+    {
+        isIdNull = false;
+        this.id_ = id_;
+    }
+
+    public void setNullId()
+    {
+        isIdNull = true;
+        this.id_ = (long)0;
+    }
+
+    public boolean isNullId()
+    {
+        return isIdNull;
+    }
+
+    public java.lang.String getVal()
+    {
+        return this.val_;
+    }
+
+    public void setVal(java.lang.String val_)
+    {
+        this.val_ = val_;
+    }
+
+    public void setNullVal()
+    {
+        this.val_ = null;
+    }
+
+    public boolean isNullVal()
+    {
+        return this.val_ == null;
+    }
+
+    private boolean isIdNull = true;
+    private long id_;
+    private java.lang.String val_;
+}
diff --git a/java/a/Worowid.java b/java/a/Worowid.java
new file mode 100644
index 0000000..4f18dad
--- /dev/null
+++ b/java/a/Worowid.java
@@ -0,0 +1,622 @@
+/**
+ * Automatically generated by Zserio Java generator version 1.3.0 using Zserio core 2.18.2.
+ * Generator setup: writerCode, pubsubCode, serviceCode, sqlCode, validationCode.
+ */
+
+package a;
+
+import java.util.Arrays;
+
+public class Worowid
+{
+    public Worowid(java.sql.Connection connection, java.lang.String tableName)
+    {
+        this.connection = connection;
+        this.attachedDbName = null;
+        this.tableName = tableName;
+    }
+
+    public Worowid(java.sql.Connection connection, java.lang.String attachedDbName,
+            java.lang.String tableName)
+    {
+        this.connection = connection;
+        this.attachedDbName = attachedDbName;
+        this.tableName = tableName;
+    }
+
+    public void createTable() throws java.sql.SQLException
+    {
+        final java.lang.StringBuilder sqlQuery = getCreateTableQuery();
+        sqlQuery.append(" WITHOUT ROWID");
+        executeUpdate(sqlQuery.toString());
+    }
+
+    public void createOrdinaryRowIdTable() throws java.sql.SQLException
+    {
+        final java.lang.StringBuilder sqlQuery = getCreateTableQuery();
+        executeUpdate(sqlQuery.toString());
+    }
+
+    public void deleteTable() throws java.sql.SQLException
+    {
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("DROP TABLE ");
+        appendTableNameToQuery(sqlQuery);
+        executeUpdate(sqlQuery.toString());
+    }
+
+    public java.util.List<WorowidRow> read()
+            throws java.sql.SQLException, java.io.IOException
+    {
+        return read(null, null);
+    }
+
+    public java.util.List<WorowidRow> read(
+            java.lang.String condition) throws java.sql.SQLException, java.io.IOException
+    {
+        return read(null, condition);
+    }
+
+    public java.util.List<WorowidRow> read(
+            java.lang.String[] colNames) throws java.sql.SQLException, java.io.IOException
+    {
+        return read(colNames, null);
+    }
+
+    public java.util.List<WorowidRow> read(
+            java.lang.String[] colNames, java.lang.String condition)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        // assemble sql query
+        final boolean[] columns = createColumnMapping(colNames);
+        
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("SELECT ");
+        appendColumnsToQuery(sqlQuery, columns, ColumnFormat.NAME);
+        sqlQuery.append(" FROM ");
+        appendTableNameToQuery(sqlQuery);
+        if (condition != null)
+        {
+            sqlQuery.append(" WHERE ");
+            sqlQuery.append(condition);
+        }
+
+        // read rows
+        final java.util.List<WorowidRow> rows = new java.util.ArrayList<WorowidRow>();
+        try (
+            final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString());
+            final java.sql.ResultSet resultSet = statement.executeQuery();
+        )
+        {
+            while (resultSet.next())
+            {
+                final WorowidRow row = readRow(columns, resultSet);
+                rows.add(row);
+            }
+        }
+
+        return rows;
+    }
+
+    public void write(java.util.List<WorowidRow> rows)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        write(rows, null);
+    }
+
+    public void write(java.util.List<WorowidRow> rows, java.lang.String[] colNames)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        // assemble sql query
+        final boolean[] columns = createColumnMapping(colNames);
+
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("INSERT INTO ");
+        appendTableNameToQuery(sqlQuery);
+        sqlQuery.append(" (");
+        appendColumnsToQuery(sqlQuery, columns, ColumnFormat.NAME);
+        sqlQuery.append(") VALUES (");
+        appendColumnsToQuery(sqlQuery, columns, ColumnFormat.SQL_PARAMETER);
+        sqlQuery.append(")");
+
+        // write rows
+        final boolean wasTransactionStarted = startTransaction();
+        try (final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString()))
+        {
+            for (WorowidRow row : rows)
+            {
+                writeRow(row, columns, statement);
+                statement.addBatch();
+            }
+            statement.executeBatch();
+        }
+
+        endTransaction(wasTransactionStarted);
+    }
+
+    public void update(WorowidRow row, java.lang.String whereCondition)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        update(row, null, whereCondition);
+    }
+
+    public void update(WorowidRow row, java.lang.String[] colNames, java.lang.String whereCondition)
+            throws java.sql.SQLException, java.io.IOException
+    {
+        // assemble sql query
+        final boolean[] columns = createColumnMapping(colNames);
+
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("UPDATE ");
+        appendTableNameToQuery(sqlQuery);
+        sqlQuery.append(" SET ");
+        appendColumnsToQuery(sqlQuery, columns, ColumnFormat.SQL_UPDATE);
+        sqlQuery.append(" WHERE ");
+        sqlQuery.append(whereCondition);
+
+        // update row
+        try (final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString()))
+        {
+            writeRow(row, columns, statement);
+            statement.executeUpdate();
+        }
+    }
+
+    public zserio.runtime.validation.ValidationReport validate()
+            throws java.sql.SQLException
+    {
+        final zserio.runtime.validation.ValidationTimer totalValidationTimer =
+                new zserio.runtime.validation.ValidationTimer();
+        totalValidationTimer.start();
+        final java.util.List<zserio.runtime.validation.ValidationError> errors =
+                new java.util.ArrayList<zserio.runtime.validation.ValidationError>();
+        int numberOfValidatedRows = 0;
+        final zserio.runtime.validation.ValidationTimer totalParameterProviderTimer =
+                new zserio.runtime.validation.ValidationTimer();
+
+        if (validateSchema(errors))
+        {
+            final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("SELECT " +
+                    "k, " +
+                    "v" +
+                    " FROM ");
+            appendTableNameToQuery(sqlQuery);
+
+            try (
+                final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString());
+                final java.sql.ResultSet resultSet = statement.executeQuery();
+            )
+            {
+                while (resultSet.next())
+                {
+                    numberOfValidatedRows++;
+
+                    if (!validateTypeK(errors, resultSet))
+                        continue;
+                    if (!validateTypeV(errors, resultSet))
+                        continue;
+
+                    final WorowidRow row = new WorowidRow();
+                    if (!validateFieldK(errors, resultSet, row))
+                        continue;
+                    if (!validateFieldV(errors, resultSet, row))
+                        continue;
+                }
+            }
+        }
+
+        totalValidationTimer.stop();
+
+        return new zserio.runtime.validation.ValidationReport(1, numberOfValidatedRows,
+                totalValidationTimer.getDuration(), totalParameterProviderTimer.getDuration(), errors);
+    }
+
+    private boolean[] createColumnMapping(java.lang.String[] colNames)
+    {
+        boolean[] map = new boolean[columnNames.length];
+        if (colNames == null)
+        {
+            Arrays.fill(map, true);
+        }
+        else
+        {
+            Arrays.fill(map, false);
+            for (String colName : colNames)
+            {
+                int idx = -1;
+                for (int i = 0; i < columnNames.length; ++i)
+                {
+                    if (columnNames[i].equals(colName))
+                        idx = i;
+                }
+                if (idx < 0)
+                    throw new zserio.runtime.ZserioError("Column name: '" + colName + "' doesn't exist in 'Worowid'!");
+                map[idx] = true;
+            }
+        }
+        return map;
+    }
+
+    private void appendTableNameToQuery(java.lang.StringBuilder sqlQuery)
+    {
+        if (attachedDbName != null)
+        {
+            sqlQuery.append(attachedDbName);
+            sqlQuery.append('.');
+        }
+        sqlQuery.append(tableName);
+    }
+
+    private void appendColumnsToQuery(java.lang.StringBuilder sqlQuery, boolean[] columns, ColumnFormat format)
+    {
+        boolean isFirst = true;
+        for (int i = 0; i < columns.length; ++i)
+        {
+            if (columns[i])
+            {
+                if (!isFirst)
+                {
+                    sqlQuery.append(",");
+                }
+                else
+                {
+                    isFirst = false;
+                }
+                switch (format)
+                {
+                    case NAME:
+                        sqlQuery.append(columnNames[i]);
+                        break;
+                    case SQL_PARAMETER:
+                        sqlQuery.append("?");
+                        break;
+                    case SQL_UPDATE:
+                        sqlQuery.append(columnNames[i]);
+                        sqlQuery.append("=?");
+                        break;
+                }
+            }
+        }
+    }
+
+    private void executeUpdate(java.lang.String sql) throws java.sql.SQLException
+    {
+        try (final java.sql.Statement statement = connection.createStatement())
+        {
+            statement.executeUpdate(sql);
+        }
+    }
+
+    private boolean startTransaction() throws java.sql.SQLException
+    {
+        boolean wasTransactionStarted = false;
+        if (connection.getAutoCommit())
+        {
+            connection.setAutoCommit(false);
+            wasTransactionStarted = true;
+        }
+
+        return wasTransactionStarted;
+    }
+
+    private void endTransaction(boolean wasTransactionStarted) throws java.sql.SQLException
+    {
+        if (wasTransactionStarted)
+        {
+            connection.commit();
+            connection.setAutoCommit(true);
+        }
+    }
+
+    private java.lang.StringBuilder getCreateTableQuery() throws java.sql.SQLException
+    {
+        final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("CREATE TABLE ");
+        appendTableNameToQuery(sqlQuery);
+        sqlQuery.append(
+                "(" +
+                "k TEXT" + " " + "NOT NULL" + "," +
+                "v INTEGER" +
+                ", " +
+                "PRIMARY KEY(k)" +
+                ")");
+
+        return sqlQuery;
+    }
+
+    private static WorowidRow readRow(boolean[] columns,
+            java.sql.ResultSet resultSet) throws java.sql.SQLException, java.io.IOException
+    {
+        final WorowidRow row = new WorowidRow();
+        int index = 1;
+
+        // field k
+        if (columns[0])
+        {
+            final java.lang.String valueK = resultSet.getString(index++);
+            if (!resultSet.wasNull())
+            {
+                row.setK(valueK);
+            }
+        }
+
+        // field v
+        if (columns[1])
+        {
+            final byte valueV = resultSet.getByte(index);
+            if (!resultSet.wasNull())
+            {
+                row.setV(valueV);
+            }
+        }
+
+        return row;
+    }
+
+    private static void writeRow(WorowidRow row, boolean[] columns, java.sql.PreparedStatement statement)
+            throws java.sql.SQLException
+    {
+        int index = 1;
+
+        // field k
+        if (columns[0])
+        {
+            if (row.isNullK())
+            {
+                statement.setNull(index++, java.sql.Types.VARCHAR);
+            }
+            else
+            {
+                final java.lang.String value = row.getK();
+                statement.setString(index++, value);
+            }
+        }
+
+        // field v
+        if (columns[1])
+        {
+            if (row.isNullV())
+            {
+                statement.setNull(index, java.sql.Types.INTEGER);
+            }
+            else
+            {
+                final byte value = row.getV();
+                statement.setByte(index, value);
+            }
+        }
+    }
+
+    private boolean validateSchema(java.util.List<zserio.runtime.validation.ValidationError> errors)
+            throws java.sql.SQLException
+    {
+        final java.util.Map<java.lang.String, zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription>
+                schema = zserio.runtime.validation.ValidationSqliteUtil.getTableSchema(connection,
+                        attachedDbName, tableName);
+        boolean result = true;
+
+        if (!validateColumnK(errors, schema))
+            result = false;
+        if (!validateColumnV(errors, schema))
+            result = false;
+
+        if (!schema.isEmpty())
+        {
+            // report superfluous columns
+            for (java.util.Map.Entry<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> entry : schema.entrySet())
+            {
+                final java.lang.String columnName = entry.getKey();
+                final java.lang.String columnType = entry.getValue().getType();
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, columnName,
+                        zserio.runtime.validation.ValidationError.Type.COLUMN_SUPERFLUOUS,
+                        "superfluous column " + tableName + "." + columnName + " of type " + columnType +
+                        " encountered"));
+                result = false;
+            }
+        }
+
+        return result;
+    }
+
+    private boolean validateColumnK(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("k");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "k",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Worowid.k is missing"));
+            return false;
+        }
+
+        if (!column.getType().equals("TEXT"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "k",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                    "column Worowid.k has type '" + column.getType() +
+                    "' but 'TEXT' is expected"));
+            return false;
+        }
+
+        if (!column.isNotNull())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "k",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Worowid.k is NULL-able, " +
+                    "but the column is expected to be NOT NULL-able"));
+            return false;
+        }
+
+        if (!column.isPrimaryKey())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "k",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Worowid.k is not primary key, " +
+                    "but the column is expected to be primary key"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateColumnV(
+            java.util.List<zserio.runtime.validation.ValidationError> errors,
+            java.util.Map<java.lang.String,
+                    zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription> schema)
+    {
+        final zserio.runtime.validation.ValidationSqliteUtil.ColumnDescription column =
+                schema.remove("v");
+        if (column == null)
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "v",
+                    zserio.runtime.validation.ValidationError.Type.COLUMN_MISSING,
+                    "column Worowid.v is missing"));
+            return false;
+        }
+
+        if (!column.getType().equals("INTEGER"))
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "v",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                    "column Worowid.v has type '" + column.getType() +
+                    "' but 'INTEGER' is expected"));
+            return false;
+        }
+
+        if (column.isNotNull())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "v",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Worowid.v is NOT NULL-able, " +
+                    "but the column is expected to be NULL-able"));
+            return false;
+        }
+
+        if (column.isPrimaryKey())
+        {
+            errors.add(new zserio.runtime.validation.ValidationError(tableName, "v",
+                    zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_CONSTRAINT,
+                    "column Worowid.v is primary key, " +
+                    "but the column is expected not to be primary key"));
+            return false;
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeK(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(1) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(1));
+            if (type != java.sql.Types.VARCHAR)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "k",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Worowid.k type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to TEXT)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateTypeV(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        // don't check null column values because new JDBC returns NUMERIC type for null in virtual tables
+        // note that known Xerial JDBC drivers do not apply automatic type conversion in getObject method
+        if (resultSet.getObject(2) != null)
+        {
+            final java.sql.ResultSetMetaData metaData = resultSet.getMetaData();
+            final int type = zserio.runtime.validation.ValidationSqliteUtil.sqlTypeToSqliteType(
+                    metaData.getColumnType(2));
+            if (type != java.sql.Types.INTEGER)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "v",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.INVALID_COLUMN_TYPE,
+                        "Column Worowid.v type check failed (" +
+                        zserio.runtime.validation.ValidationSqliteUtil.sqliteColumnTypeName(type) +
+                        " doesn't match to INTEGER)!"));
+                return false;
+            }
+        }
+
+        return true;
+    }
+
+    private boolean validateFieldK(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet,
+            WorowidRow row) throws java.sql.SQLException
+    {
+        final java.lang.String value = resultSet.getString(1);
+        if (!resultSet.wasNull())
+        {
+            row.setK(value);
+        }
+
+        return true;
+    }
+
+    private boolean validateFieldV(
+            java.util.List<zserio.runtime.validation.ValidationError> errors, java.sql.ResultSet resultSet,
+            WorowidRow row) throws java.sql.SQLException
+    {
+        final long value = resultSet.getLong(2);
+        if (!resultSet.wasNull())
+        {
+            final long lowerBound = (byte)-128;
+            final long upperBound = (byte)127;
+            if (value < lowerBound || value > upperBound)
+            {
+                errors.add(new zserio.runtime.validation.ValidationError(tableName, "v",
+                        getRowKeyValues(resultSet),
+                        zserio.runtime.validation.ValidationError.Type.VALUE_OUT_OF_RANGE,
+                        "Value " + value + " of Worowid.v exceeds the range of " +
+                        lowerBound + ".." + upperBound));
+                return false;
+            }
+            row.setV((byte)value);
+        }
+
+        return true;
+    }
+
+    private static java.util.List<java.lang.String> getRowKeyValues(java.sql.ResultSet resultSet)
+            throws java.sql.SQLException
+    {
+        final java.util.List<java.lang.String> rowKeyValues = new java.util.ArrayList<java.lang.String>();
+        final java.lang.String valueK = resultSet.getString(1);
+        rowKeyValues.add((valueK != null) ? valueK : "NULL");
+
+        return rowKeyValues;
+    }
+
+    private enum ColumnFormat
+    {
+        NAME,
+        SQL_PARAMETER,
+        SQL_UPDATE
+    };
+
+    private static final java.lang.String[] columnNames =
+    {
+        "k",
+        "v"
+    };
+
+    private final java.sql.Connection connection;
+    private final java.lang.String attachedDbName;
+    private final java.lang.String tableName;
+}
diff --git a/java/a/WorowidRow.java b/java/a/WorowidRow.java
new file mode 100644
index 0000000..8388a2b
--- /dev/null
+++ b/java/a/WorowidRow.java
@@ -0,0 +1,55 @@
+/**
+ * Automatically generated by Zserio Java generator version 1.3.0 using Zserio core 2.18.2.
+ * Generator setup: writerCode, pubsubCode, serviceCode, sqlCode, validationCode.
+ */
+
+package a;
+
+public final class WorowidRow
+{
+    public java.lang.String getK()
+    {
+        return this.k_;
+    }
+
+    public void setK(java.lang.String k_)
+    {
+        this.k_ = k_;
+    }
+
+    public void setNullK()
+    {
+        this.k_ = null;
+    }
+
+    public boolean isNullK()
+    {
+        return this.k_ == null;
+    }
+
+    public byte getV()
+    {
+        return this.v_;
+    }
+
+    public void setV(byte v_)
+    {
+        isVNull = false;
+        this.v_ = v_;
+    }
+
+    public void setNullV()
+    {
+        isVNull = true;
+        this.v_ = (byte)0;
+    }
+
+    public boolean isNullV()
+    {
+        return isVNull;
+    }
+
+    private java.lang.String k_;
+    private boolean isVNull = true;
+    private byte v_;
+}
diff --git a/py/a/__init__.py b/py/a/__init__.py
new file mode 100644
index 0000000..a8975dd
--- /dev/null
+++ b/py/a/__init__.py
@@ -0,0 +1,2 @@
+# Automatically generated by Zserio Python generator version 1.1.2 using Zserio core 2.18.2.
+# Generator setup: writerCode, pubsubCode, serviceCode, sqlCode
diff --git a/py/a/api.py b/py/a/api.py
new file mode 100644
index 0000000..4fd19ce
--- /dev/null
+++ b/py/a/api.py
@@ -0,0 +1,12 @@
+# Automatically generated by Zserio Python generator version 1.1.2 using Zserio core 2.18.2.
+# Generator setup: writerCode, pubsubCode, serviceCode, sqlCode
+
+from a.col import Col
+from a.msk import Msk
+from a.blob import Blob
+from a.simple import Simple
+from a.tab import Tab
+from a.worowid import Worowid
+from a.fts import Fts
+from a.tpl_string import Tpl_string
+from a.db import Db
diff --git a/py/a/blob.py b/py/a/blob.py
new file mode 100644
index 0000000..5349ee4
--- /dev/null
+++ b/py/a/blob.py
@@ -0,0 +1,92 @@
+# Automatically generated by Zserio Python generator version 1.1.2 using Zserio core 2.18.2.
+# Generator setup: writerCode, pubsubCode, serviceCode, sqlCode
+
+from __future__ import annotations
+
+import typing
+import zserio
+
+class Blob:
+    def __init__(
+            self,
+            n_: int,
+            arr_: typing.List[int] = None,
+            s_: str = str()) -> None:
+        self._n_ = n_
+        self._arr_ = zserio.array.Array(zserio.array.BitFieldArrayTraits(8), arr_)
+        self._s_ = s_
+
+    @classmethod
+    def from_reader(
+            cls: typing.Type['Blob'],
+            zserio_reader: zserio.BitStreamReader,
+            n_: int) -> 'Blob':
+        self = object.__new__(cls)
+        self._n_ = n_
+
+        self.read(zserio_reader)
+
+        return self
+
+    def __eq__(self, other: object) -> bool:
+        if isinstance(other, Blob):
+            return (self._n_ == other._n_ and
+                    (self._arr_ == other._arr_) and
+                    (self._s_ == other._s_))
+
+        return False
+
+    def __hash__(self) -> int:
+        result = zserio.hashcode.HASH_SEED
+        result = zserio.hashcode.calc_hashcode_int32(result, self._n_)
+        result = zserio.hashcode.calc_hashcode_object(result, self._arr_)
+        result = zserio.hashcode.calc_hashcode_string(result, self._s_)
+
+        return result
+
+    @property
+    def n(self) -> int:
+        return self._n_
+
+    @property
+    def arr(self) -> typing.List[int]:
+        return self._arr_.raw_array
+
+    @arr.setter
+    def arr(self, arr_: typing.List[int]) -> None:
+        self._arr_ = zserio.array.Array(zserio.array.BitFieldArrayTraits(8), arr_)
+
+    @property
+    def s(self) -> str:
+        return self._s_
+
+    @s.setter
+    def s(self, s_: str) -> None:
+        self._s_ = s_
+
+    def bitsizeof(self, bitposition: int = 0) -> int:
+        end_bitposition = bitposition
+        end_bitposition += self._arr_.bitsizeof(end_bitposition)
+        end_bitposition += zserio.bitsizeof.bitsizeof_string(self._s_)
+
+        return end_bitposition - bitposition
+
+    def initialize_offsets(self, bitposition: int = 0) -> int:
+        end_bitposition = bitposition
+        end_bitposition = self._arr_.initialize_offsets(end_bitposition)
+        end_bitposition += zserio.bitsizeof.bitsizeof_string(self._s_)
+
+        return end_bitposition
+
+    def read(self, zserio_reader: zserio.BitStreamReader) -> None:
+        self._arr_ = zserio.array.Array.from_reader(zserio.array.BitFieldArrayTraits(8), zserio_reader, self._n_)
+        self._s_ = zserio_reader.read_string()
+
+    def write(self, zserio_writer: zserio.BitStreamWriter) -> None:
+        # check array length
+        if len(self._arr_) != (self._n_):
+            raise zserio.PythonRuntimeException("Wrong array length for field Blob.arr: "
+                                                "{0} != {1}!".format(len(self._arr_), self._n_))
+        self._arr_.write(zserio_writer)
+
+        zserio_writer.write_string(self._s_)
diff --git a/py/a/col.py b/py/a/col.py
new file mode 100644
index 0000000..d3004c3
--- /dev/null
+++ b/py/a/col.py
@@ -0,0 +1,43 @@
+# Automatically generated by Zserio Python generator version 1.1.2 using Zserio core 2.18.2.
+# Generator setup: writerCode, pubsubCode, serviceCode, sqlCode
+
+from __future__ import annotations
+
+import typing
+import zserio
+
+class Col(zserio.Enum):
+    R = 0
+    G = 3
+    B = 4
+
+    @classmethod
+    def from_name(cls: typing.Type['Col'], item_name: str) -> 'Col':
+        if item_name == 'R':
+            item = Col.R
+        elif item_name == 'G':
+            item = Col.G
+        elif item_name == 'B':
+            item = Col.B
+        else:
+            raise zserio.PythonRuntimeException(f"Enum item '{item_name}' doesn't exist in enum 'Col'!")
+
+        return item
+
+    @classmethod
+    def from_reader(cls: typing.Type['Col'], reader: zserio.BitStreamReader) -> 'Col':
+        return cls(reader.read_bits(8))
+
+    def __hash__(self) -> int:
+        result = zserio.hashcode.HASH_SEED
+        result = zserio.hashcode.calc_hashcode_int32(result, self.value)
+        return result
+
+    def bitsizeof(self, _bitposition: int = 0) -> int:
+        return 8
+
+    def initialize_offsets(self, bitposition: int = 0) -> int:
+        return bitposition + self.bitsizeof(bitposition)
+
+    def write(self, writer: zserio.BitStreamWriter) -> None:
+        writer.write_bits(self.value, 8)
diff --git a/py/a/db.py b/py/a/db.py
new file mode 100644
index 0000000..09d955a
--- /dev/null
+++ b/py/a/db.py
@@ -0,0 +1,143 @@
+# Automatically generated by Zserio Python generator version 1.1.2 using Zserio core 2.18.2.
+# Generator setup: writerCode, pubsubCode, serviceCode, sqlCode
+
+from __future__ import annotations
+
+import typing
+import apsw
+
+import a.fts
+import a.tab
+import a.tpl_string
+import a.worowid
+
+class Db:
+    def __init__(self, connection: apsw.Connection, table_to_attached_db_name_relocation_map: typing.Dict[str, str] = None) -> None:
+        self._connection: apsw.Connection = connection
+        self._attached_db_name_list: typing.Union[typing.List[str], typing.ValuesView[str]] = []
+        self._is_external: bool = True
+        self._init_tables(table_to_attached_db_name_relocation_map if table_to_attached_db_name_relocation_map else {})
+
+    @classmethod
+    def from_file(cls: typing.Type['Db'], filename: str, table_to_db_filename_relocation_map: typing.Dict[str, str] = None) -> 'Db':
+        connection = apsw.Connection(filename, apsw.SQLITE_OPEN_URI | apsw.SQLITE_OPEN_READWRITE | apsw.SQLITE_OPEN_CREATE)
+
+        table_name_to_attached_db_name_map: typing.Dict[str, str] = {}
+        db_filename_to_attached_db_name_map: typing.Dict[str, str] = {}
+        if table_to_db_filename_relocation_map:
+            cursor = connection.cursor()
+            for relocated_table_name, db_filename in table_to_db_filename_relocation_map.items():
+                attached_db_name = db_filename_to_attached_db_name_map.get(db_filename)
+                if attached_db_name is None:
+                    attached_db_name = cls.DATABASE_NAME + "_" + relocated_table_name
+                    cls._attach_database(cursor, db_filename, attached_db_name)
+                    db_filename_to_attached_db_name_map[db_filename] = attached_db_name
+
+                table_name_to_attached_db_name_map[relocated_table_name] = attached_db_name
+
+        instance = cls(connection, table_name_to_attached_db_name_map)
+        instance._attached_db_name_list = db_filename_to_attached_db_name_map.values()
+        instance._is_external = False
+
+        return instance
+
+    def close(self) -> None:
+        if not self._is_external:
+            try:
+                self._detach_databases()
+            finally:
+                self._connection.close()
+        self._connection = None
+
+    @property
+    def t1(self) -> a.tab.Tab:
+        return self._t1_
+
+    @property
+    def t2(self) -> a.tab.Tab:
+        return self._t2_
+
+    @property
+    def w(self) -> a.worowid.Worowid:
+        return self._w_
+
+    @property
+    def fts(self) -> a.fts.Fts:
+        return self._fts_
+
+    @property
+    def ts(self) -> a.tpl_string.Tpl_string:
+        return self._ts_
+
+    @property
+    def connection(self) -> apsw.Connection:
+        return self._connection
+
+    def create_schema(self, without_rowid_table_names_blacklist: typing.List[str] = None) -> None:
+        has_autocommit = self._connection.getautocommit()
+        if has_autocommit:
+            cursor = self._connection.cursor()
+            cursor.execute("BEGIN")
+
+        if without_rowid_table_names_blacklist is None:
+            without_rowid_table_names_blacklist = []
+
+        self._t1_.create_table()
+        self._t2_.create_table()
+        if self.TABLE_NAME_W in without_rowid_table_names_blacklist:
+            self._w_.create_ordinary_rowid_table()
+        else:
+            self._w_.create_table()
+        self._fts_.create_table()
+        self._ts_.create_table()
+
+        if has_autocommit:
+            cursor.execute("COMMIT")
+
+    def delete_schema(self) -> None:
+        has_autocommit = self._connection.getautocommit()
+        if has_autocommit:
+            cursor = self._connection.cursor()
+            cursor.execute("BEGIN")
+
+        self._t1_.delete_table()
+        self._t2_.delete_table()
+        self._w_.delete_table()
+        self._fts_.delete_table()
+        self._ts_.delete_table()
+
+        if has_autocommit:
+            cursor.execute("COMMIT")
+
+    def _init_tables(self, table_name_to_attached_db_name_map: typing.Dict[str, str]) -> None:
+        self._t1_ = a.tab.Tab(
+            self._connection, self.TABLE_NAME_T1, table_name_to_attached_db_name_map.get(self.TABLE_NAME_T1))
+        self._t2_ = a.tab.Tab(
+            self._connection, self.TABLE_NAME_T2, table_name_to_attached_db_name_map.get(self.TABLE_NAME_T2))
+        self._w_ = a.worowid.Worowid(
+            self._connection, self.TABLE_NAME_W, table_name_to_attached_db_name_map.get(self.TABLE_NAME_W))
+        self._fts_ = a.fts.Fts(
+            self._connection, self.TABLE_NAME_FTS, table_name_to_attached_db_name_map.get(self.TABLE_NAME_FTS))
+        self._ts_ = a.tpl_string.Tpl_string(
+            self._connection, self.TABLE_NAME_TS, table_name_to_attached_db_name_map.get(self.TABLE_NAME_TS))
+
+    @staticmethod
+    def _attach_database(cursor: typing.Any, db_filename: str, db_name: str) -> None:
+        sql_query = "ATTACH DATABASE '"
+        sql_query += db_filename
+        sql_query += "' AS "
+        sql_query += db_name
+        cursor.execute(sql_query)
+
+    def _detach_databases(self) -> None:
+        for attached_db_name in self._attached_db_name_list:
+            sql_query = "DETACH DATABASE " + attached_db_name
+            cursor = self._connection.cursor()
+            cursor.execute(sql_query)
+
+    DATABASE_NAME = "Db"
+    TABLE_NAME_T1 = "t1"
+    TABLE_NAME_T2 = "t2"
+    TABLE_NAME_W = "w"
+    TABLE_NAME_FTS = "fts"
+    TABLE_NAME_TS = "ts"
diff --git a/py/a/fts.py b/py/a/fts.py
new file mode 100644
index 0000000..ed765e6
--- /dev/null
+++ b/py/a/fts.py
@@ -0,0 +1,150 @@
+# Automatically generated by Zserio Python generator version 1.1.2 using Zserio core 2.18.2.
+# Generator setup: writerCode, pubsubCode, serviceCode, sqlCode
+
+from __future__ import annotations
+from enum import Enum, IntEnum
+
+import typing
+import apsw
+
+class Fts:
+    class Rows:
+        def __init__(self, rows: typing.Iterator['Fts.ROW_ANNOTATION'],
+                column_map: typing.List[bool]
+                ) -> None:
+            self._rows = rows
+            self._column_map = column_map
+
+        def __iter__(self) -> typing.Iterator['Fts.ROW_ANNOTATION']:
+            for row in self._rows:
+                yield row
+
+    def __init__(self, connection: apsw.Connection, table_name: str, attached_db_name: str = None) -> None:
+        self._connection: apsw.Connection = connection
+        self._table_name: str = table_name
+        self._attached_db_name: str = attached_db_name
+
+    def create_table(self) -> None:
+        sql_query = self._get_create_table_query()
+        cursor = self._connection.cursor()
+        cursor.execute(sql_query)
+
+    def delete_table(self) -> None:
+        sql_query = "DROP TABLE "
+        sql_query += self._get_table_name_in_query()
+        cursor = self._connection.cursor()
+        cursor.execute(sql_query)
+
+    def read(self, condition: str = None) -> 'Fts.Rows':
+        return self.read_columns(None, condition)
+
+    def read_columns(self, columns: typing.List[str], condition: str = None) -> 'Fts.Rows':
+        column_map = self._create_column_mapping(columns)
+        sql_query = "SELECT "
+        sql_query += self._get_columns_in_query(column_map, self._ColumnFormat.NAME)
+        sql_query += " FROM "
+        sql_query += self._get_table_name_in_query()
+        if condition:
+            sql_query += " WHERE " + condition
+
+        cursor = self._connection.cursor()
+        read_rows = cursor.execute(sql_query)
+
+        return Fts.Rows(read_rows, column_map)
+
+    def write(self, rows: typing.Sequence['Fts.ROW_ANNOTATION'], columns: typing.List[str] = None) -> None:
+        column_map = self._create_column_mapping(columns)
+        sql_query = "INSERT INTO "
+        sql_query += self._get_table_name_in_query()
+        sql_query += "("
+        sql_query += self._get_columns_in_query(column_map, self._ColumnFormat.NAME)
+        sql_query += ") VALUES ("
+        sql_query += self._get_columns_in_query(column_map, self._ColumnFormat.SQL_PARAMETER)
+        sql_query += ")"
+
+        cursor = self._connection.cursor()
+        has_autocommit = self._connection.getautocommit()
+        if has_autocommit:
+            cursor.execute("BEGIN")
+
+        for row in rows:
+            cursor.execute(sql_query, row)
+
+        if has_autocommit:
+            cursor.execute("COMMIT")
+
+    def update(self, row: 'Fts.ROW_ANNOTATION', where_condition: str) -> None:
+        """
+        Updates rows of the table.
+
+        :param row: Updated values
+        :param where_condition: SQL where condition to use.
+        """
+        return self.update_columns(row, None, where_condition)
+
+    def update_columns(self, row: 'Fts.ROW_ANNOTATION', columns: typing.List[str], where_condition: str) -> None:
+        column_map = self._create_column_mapping(columns)
+        sql_query = "UPDATE "
+        sql_query += self._get_table_name_in_query()
+        sql_query += " SET "
+        sql_query += self._get_columns_in_query(column_map, self._ColumnFormat.SQL_UPDATE)
+        sql_query += " WHERE "
+        sql_query += where_condition
+
+        cursor = self._connection.cursor()
+        cursor.execute(sql_query, row)
+
+    def _create_column_mapping(self, columns: typing.List[str]) -> typing.List[bool]:
+        if columns is None:
+            column_map = [True] * 2
+        else:
+            try:
+                column_map = [False] * 2
+                for col in columns:
+                    idx = self.COLUMN_NAMES.index(col)
+                    column_map[idx] = True
+            except ValueError as exc:
+                raise ValueError("Column name '" + col + "' doesn't exist in 'Fts'!") from exc
+
+        return column_map
+
+    def _get_table_name_in_query(self) -> str:
+        return (self._attached_db_name + "." + self._table_name) if self._attached_db_name else self._table_name
+
+    def _get_columns_in_query(self, column_map: typing.List[bool], fmt: _ColumnFormat) -> str:
+        columns = []
+
+        if column_map[0]:
+            columns.append("content" if fmt == self._ColumnFormat.NAME else "content=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+        if column_map[1]:
+            columns.append("title" if fmt == self._ColumnFormat.NAME else "title=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+
+        return ",".join(columns)
+
+
+    def _get_create_table_query(self) -> str:
+        sql_query = "CREATE VIRTUAL TABLE "
+        sql_query += self._get_table_name_in_query()
+        sql_query += " USING fts4"
+        sql_query += ("(" +
+                     "title TEXT" +
+                     ")")
+
+        return sql_query
+
+    class _ColumnFormat(Enum):
+        NAME = 1
+        SQL_PARAMETER = 2
+        SQL_UPDATE = 3
+
+    COLUMN_NAMES = (
+        "content",
+        "title")
+
+    class Column(IntEnum):
+        CONTENT = 0
+        TITLE = 1
+
+    ROW_ANNOTATION = typing.Tuple[
+        str,
+        str]
diff --git a/py/a/msk.py b/py/a/msk.py
new file mode 100644
index 0000000..7105451
--- /dev/null
+++ b/py/a/msk.py
@@ -0,0 +1,83 @@
+# Automatically generated by Zserio Python generator version 1.1.2 using Zserio core 2.18.2.
+# Generator setup: writerCode, pubsubCode, serviceCode, sqlCode
+
+from __future__ import annotations
+
+import typing
+import zserio
+
+class Msk:
+    def __init__(self) -> None:
+        self._value = 0
+
+    @classmethod
+    def from_value(cls: typing.Type['Msk'], value: int) -> 'Msk':
+        if value < 0 or value > 255:
+            raise zserio.PythonRuntimeException("Value for bitmask 'Msk' out of bounds: {0}!".format(value))
+
+        instance = cls()
+        instance._value = value
+        return instance
+
+    @classmethod
+    def from_reader(cls: typing.Type['Msk'], reader: zserio.BitStreamReader) -> 'Msk':
+        instance = cls()
+        instance._value = reader.read_bits(8)
+        return instance
+
+    def __eq__(self, other: object) -> bool:
+        if isinstance(other, Msk):
+            return self._value == other._value
+
+        return False
+
+    def __hash__(self) -> int:
+        result = zserio.hashcode.HASH_SEED
+        result = zserio.hashcode.calc_hashcode_int32(result, self._value)
+        return result
+
+    def __str__(self) -> str:
+        result = ""
+
+        if (self & Msk.Values.A) == Msk.Values.A:
+            result += "A" if not result else " | A"
+        if (self & Msk.Values.B) == Msk.Values.B:
+            result += "B" if not result else " | B"
+        if (self & Msk.Values.C) == Msk.Values.C:
+            result += "C" if not result else " | C"
+
+        return str(self._value) + "[" + result + "]"
+
+    def __or__(self, other: 'Msk') -> 'Msk':
+        return Msk.from_value(self._value | other._value)
+
+    def __and__(self, other: 'Msk') -> 'Msk':
+        return Msk.from_value(self._value & other._value)
+
+    def __xor__(self, other: 'Msk') -> 'Msk':
+        return Msk.from_value(self._value ^ other._value)
+
+    def __invert__(self) -> 'Msk':
+        return Msk.from_value(~self._value & 255)
+
+    def bitsizeof(self, _bitposition: int = 0) -> int:
+        return 8
+
+    def initialize_offsets(self, bitposition: int = 0) -> int:
+        return bitposition + self.bitsizeof(bitposition)
+
+    def write(self, writer: zserio.BitStreamWriter) -> None:
+        writer.write_bits(self._value, 8)
+
+    @property
+    def value(self) -> int:
+        return self._value
+
+    class Values:
+        A: 'Msk' = None
+        B: 'Msk' = None
+        C: 'Msk' = None
+
+Msk.Values.A = Msk.from_value(1)
+Msk.Values.B = Msk.from_value(2)
+Msk.Values.C = Msk.from_value(4)
diff --git a/py/a/simple.py b/py/a/simple.py
new file mode 100644
index 0000000..4f2a65e
--- /dev/null
+++ b/py/a/simple.py
@@ -0,0 +1,61 @@
+# Automatically generated by Zserio Python generator version 1.1.2 using Zserio core 2.18.2.
+# Generator setup: writerCode, pubsubCode, serviceCode, sqlCode
+
+from __future__ import annotations
+
+import typing
+import zserio
+
+class Simple:
+    def __init__(
+            self,
+            x_: int = int()) -> None:
+        self._x_ = x_
+
+    @classmethod
+    def from_reader(
+            cls: typing.Type['Simple'],
+            zserio_reader: zserio.BitStreamReader) -> 'Simple':
+        self = object.__new__(cls)
+
+        self.read(zserio_reader)
+
+        return self
+
+    def __eq__(self, other: object) -> bool:
+        if isinstance(other, Simple):
+            return (self._x_ == other._x_)
+
+        return False
+
+    def __hash__(self) -> int:
+        result = zserio.hashcode.HASH_SEED
+        result = zserio.hashcode.calc_hashcode_int32(result, self._x_)
+
+        return result
+
+    @property
+    def x(self) -> int:
+        return self._x_
+
+    @x.setter
+    def x(self, x_: int) -> None:
+        self._x_ = x_
+
+    def bitsizeof(self, bitposition: int = 0) -> int:
+        end_bitposition = bitposition
+        end_bitposition += 32
+
+        return end_bitposition - bitposition
+
+    def initialize_offsets(self, bitposition: int = 0) -> int:
+        end_bitposition = bitposition
+        end_bitposition += 32
+
+        return end_bitposition
+
+    def read(self, zserio_reader: zserio.BitStreamReader) -> None:
+        self._x_ = zserio_reader.read_signed_bits(32)
+
+    def write(self, zserio_writer: zserio.BitStreamWriter) -> None:
+        zserio_writer.write_signed_bits(self._x_, 32)
diff --git a/py/a/tab.py b/py/a/tab.py
new file mode 100644
index 0000000..3fffaa5
--- /dev/null
+++ b/py/a/tab.py
@@ -0,0 +1,395 @@
+# Automatically generated by Zserio Python generator version 1.1.2 using Zserio core 2.18.2.
+# Generator setup: writerCode, pubsubCode, serviceCode, sqlCode
+
+from __future__ import annotations
+from enum import Enum, IntEnum
+
+import typing
+import apsw
+
+import a.blob
+import a.col
+import a.msk
+import a.simple
+import zserio
+
+class Tab:
+    class Rows:
+        def __init__(self, rows: typing.Iterator[typing.Tuple], parameter_provider: 'Tab.IParameterProvider',
+                column_map: typing.List[bool]
+                ) -> None:
+            self._rows = rows
+            self._parameter_provider = parameter_provider
+            self._column_map = column_map
+
+        def __iter__(self) -> typing.Iterator['Tab.ROW_ANNOTATION']:
+            for row in self._rows:
+                yield self._read_row(row)
+
+        def _read_row(self, row: typing.Tuple) -> 'Tab.ROW_ANNOTATION':
+            i = 0
+            if self._column_map[0]:
+                id_ = row[i]
+                i += 1
+            else:
+                id_ = None
+
+            if self._column_map[1]:
+                big_ = row[i]
+                i += 1
+            else:
+                big_ = None
+
+            if self._column_map[2]:
+                name_ = row[i]
+                i += 1
+            else:
+                name_ = None
+
+            if self._column_map[3]:
+                flag_ = row[i]
+                i += 1
+            else:
+                flag_ = None
+
+            if self._column_map[4]:
+                f_ = row[i]
+                i += 1
+            else:
+                f_ = None
+
+            if self._column_map[5]:
+                g_ = row[i]
+                i += 1
+            else:
+                g_ = None
+
+            if self._column_map[6]:
+                col_ = row[i]
+                if col_ is not None:
+                    col_ = a.col.Col(col_)
+                i += 1
+            else:
+                col_ = None
+
+            if self._column_map[7]:
+                msk_ = row[i]
+                if msk_ is not None:
+                    msk_ = a.msk.Msk.from_value(msk_)
+                i += 1
+            else:
+                msk_ = None
+
+            if self._column_map[8]:
+                len_ = row[i]
+                i += 1
+            else:
+                len_ = None
+
+            if self._column_map[9]:
+                b1_ = row[i]
+                if b1_ is not None:
+                    reader = zserio.BitStreamReader(b1_)
+                    b1_ = a.blob.Blob.from_reader(reader, len_)
+                i += 1
+            else:
+                b1_ = None
+
+            if self._column_map[10]:
+                b2_ = row[i]
+                if b2_ is not None:
+                    reader = zserio.BitStreamReader(b2_)
+                    b2_ = a.blob.Blob.from_reader(reader, self._parameter_provider.cnt(row))
+                i += 1
+            else:
+                b2_ = None
+
+            if self._column_map[11]:
+                s_ = row[i]
+                if s_ is not None:
+                    reader = zserio.BitStreamReader(s_)
+                    s_ = a.simple.Simple.from_reader(reader)
+                i += 1
+            else:
+                s_ = None
+
+            if self._column_map[12]:
+                u_ = row[i]
+                i += 1
+            else:
+                u_ = None
+
+            return (id_, big_, name_, flag_, f_, g_, col_, msk_, len_, b1_, b2_, s_, u_)
+
+    class IParameterProvider:
+        def cnt(self, row: typing.Tuple) -> int:
+            raise NotImplementedError()
+
+    def __init__(self, connection: apsw.Connection, table_name: str, attached_db_name: str = None) -> None:
+        self._connection: apsw.Connection = connection
+        self._table_name: str = table_name
+        self._attached_db_name: str = attached_db_name
+
+    def create_table(self) -> None:
+        sql_query = self._get_create_table_query()
+        cursor = self._connection.cursor()
+        cursor.execute(sql_query)
+
+    def delete_table(self) -> None:
+        sql_query = "DROP TABLE "
+        sql_query += self._get_table_name_in_query()
+        cursor = self._connection.cursor()
+        cursor.execute(sql_query)
+
+    def read(self, parameter_provider: 'Tab.IParameterProvider', condition: str = None) -> 'Tab.Rows':
+        return self.read_columns(parameter_provider, None, condition)
+
+    def read_columns(self, parameter_provider: 'Tab.IParameterProvider', columns: typing.List[str], condition: str = None) -> 'Tab.Rows':
+        column_map = self._create_column_mapping(columns)
+        sql_query = "SELECT "
+        sql_query += self._get_columns_in_query(column_map, self._ColumnFormat.NAME)
+        sql_query += " FROM "
+        sql_query += self._get_table_name_in_query()
+        if condition:
+            sql_query += " WHERE " + condition
+
+        cursor = self._connection.cursor()
+        read_rows = cursor.execute(sql_query)
+
+        return Tab.Rows(read_rows, parameter_provider, column_map)
+
+    def write(self, rows: typing.Sequence['Tab.ROW_ANNOTATION'], columns: typing.List[str] = None) -> None:
+        column_map = self._create_column_mapping(columns)
+        sql_query = "INSERT INTO "
+        sql_query += self._get_table_name_in_query()
+        sql_query += "("
+        sql_query += self._get_columns_in_query(column_map, self._ColumnFormat.NAME)
+        sql_query += ") VALUES ("
+        sql_query += self._get_columns_in_query(column_map, self._ColumnFormat.SQL_PARAMETER)
+        sql_query += ")"
+
+        cursor = self._connection.cursor()
+        has_autocommit = self._connection.getautocommit()
+        if has_autocommit:
+            cursor.execute("BEGIN")
+
+        for row in rows:
+            cursor.execute(sql_query, self._write_row(row, column_map))
+
+        if has_autocommit:
+            cursor.execute("COMMIT")
+
+    def update(self, row: 'Tab.ROW_ANNOTATION', where_condition: str) -> None:
+        """
+        Updates rows of the table.
+
+        :param row: Updated values
+        :param where_condition: SQL where condition to use.
+        """
+        return self.update_columns(row, None, where_condition)
+
+    def update_columns(self, row: 'Tab.ROW_ANNOTATION', columns: typing.List[str], where_condition: str) -> None:
+        column_map = self._create_column_mapping(columns)
+        sql_query = "UPDATE "
+        sql_query += self._get_table_name_in_query()
+        sql_query += " SET "
+        sql_query += self._get_columns_in_query(column_map, self._ColumnFormat.SQL_UPDATE)
+        sql_query += " WHERE "
+        sql_query += where_condition
+
+        cursor = self._connection.cursor()
+        cursor.execute(sql_query, self._write_row(row, column_map))
+
+    def _create_column_mapping(self, columns: typing.List[str]) -> typing.List[bool]:
+        if columns is None:
+            column_map = [True] * 13
+        else:
+            try:
+                column_map = [False] * 13
+                for col in columns:
+                    idx = self.COLUMN_NAMES.index(col)
+                    column_map[idx] = True
+            except ValueError as exc:
+                raise ValueError("Column name '" + col + "' doesn't exist in 'Tab'!") from exc
+
+        return column_map
+
+    def _get_table_name_in_query(self) -> str:
+        return (self._attached_db_name + "." + self._table_name) if self._attached_db_name else self._table_name
+
+    def _get_columns_in_query(self, column_map: typing.List[bool], fmt: _ColumnFormat) -> str:
+        columns = []
+
+        if column_map[0]:
+            columns.append("id" if fmt == self._ColumnFormat.NAME else "id=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+        if column_map[1]:
+            columns.append("big" if fmt == self._ColumnFormat.NAME else "big=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+        if column_map[2]:
+            columns.append("name" if fmt == self._ColumnFormat.NAME else "name=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+        if column_map[3]:
+            columns.append("flag" if fmt == self._ColumnFormat.NAME else "flag=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+        if column_map[4]:
+            columns.append("f" if fmt == self._ColumnFormat.NAME else "f=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+        if column_map[5]:
+            columns.append("g" if fmt == self._ColumnFormat.NAME else "g=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+        if column_map[6]:
+            columns.append("col" if fmt == self._ColumnFormat.NAME else "col=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+        if column_map[7]:
+            columns.append("msk" if fmt == self._ColumnFormat.NAME else "msk=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+        if column_map[8]:
+            columns.append("len" if fmt == self._ColumnFormat.NAME else "len=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+        if column_map[9]:
+            columns.append("b1" if fmt == self._ColumnFormat.NAME else "b1=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+        if column_map[10]:
+            columns.append("b2" if fmt == self._ColumnFormat.NAME else "b2=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+        if column_map[11]:
+            columns.append("s" if fmt == self._ColumnFormat.NAME else "s=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+        if column_map[12]:
+            columns.append("u" if fmt == self._ColumnFormat.NAME else "u=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+
+        return ",".join(columns)
+
+
+    def _get_create_table_query(self) -> str:
+        sql_query = "CREATE TABLE "
+        sql_query += self._get_table_name_in_query()
+        sql_query += ("(" +
+                     "id INTEGER" + " " + "PRIMARY KEY NOT NULL" + "," +
+                     "big INTEGER" + "," +
+                     "name TEXT" + "," +
+                     "flag INTEGER" + "," +
+                     "f REAL" + "," +
+                     "g REAL" + "," +
+                     "col INTEGER" + "," +
+                     "msk INTEGER" + "," +
+                     "len INTEGER" + "," +
+                     "b1 BLOB" + "," +
+                     "b2 BLOB" + "," +
+                     "s BLOB" + "," +
+                     "u INTEGER" +
+                     ", " +
+                     "UNIQUE(name, flag)" +
+                     ")")
+
+        return sql_query
+
+    @staticmethod
+    def _write_row(row: 'Tab.ROW_ANNOTATION', column_map: typing.List[bool]) -> typing.List:
+        row_in_list : typing.List = []
+
+        if column_map[0]:
+            row_in_list.append(row[0])
+
+        if column_map[1]:
+            row_in_list.append(row[1])
+
+        if column_map[2]:
+            row_in_list.append(row[2])
+
+        if column_map[3]:
+            row_in_list.append(row[3])
+
+        if column_map[4]:
+            row_in_list.append(row[4])
+
+        if column_map[5]:
+            row_in_list.append(row[5])
+
+        if column_map[6]:
+            col_ = row[6]
+            if isinstance(col_, a.col.Col):
+                row_in_list.append(col_.value)
+            else:
+                row_in_list.append(col_)
+
+        if column_map[7]:
+            msk_ = row[7]
+            if isinstance(msk_, a.msk.Msk):
+                row_in_list.append(msk_.value)
+            else:
+                row_in_list.append(msk_)
+
+        if column_map[8]:
+            row_in_list.append(row[8])
+
+        if column_map[9]:
+            b1_ = row[9]
+            if isinstance(b1_, a.blob.Blob):
+                writer = zserio.BitStreamWriter()
+                b1_.write(writer)
+                row_in_list.append(writer.byte_array)
+            else:
+                row_in_list.append(b1_)
+
+        if column_map[10]:
+            b2_ = row[10]
+            if isinstance(b2_, a.blob.Blob):
+                writer = zserio.BitStreamWriter()
+                b2_.write(writer)
+                row_in_list.append(writer.byte_array)
+            else:
+                row_in_list.append(b2_)
+
+        if column_map[11]:
+            s_ = row[11]
+            if isinstance(s_, a.simple.Simple):
+                writer = zserio.BitStreamWriter()
+                s_.write(writer)
+                row_in_list.append(writer.byte_array)
+            else:
+                row_in_list.append(s_)
+
+        if column_map[12]:
+            row_in_list.append(row[12])
+
+        return row_in_list
+
+    class _ColumnFormat(Enum):
+        NAME = 1
+        SQL_PARAMETER = 2
+        SQL_UPDATE = 3
+
+    COLUMN_NAMES = (
+        "id",
+        "big",
+        "name",
+        "flag",
+        "f",
+        "g",
+        "col",
+        "msk",
+        "len",
+        "b1",
+        "b2",
+        "s",
+        "u")
+
+    class Column(IntEnum):
+        ID = 0
+        BIG = 1
+        NAME = 2
+        FLAG = 3
+        F = 4
+        G = 5
+        COL = 6
+        MSK = 7
+        LEN = 8
+        B1 = 9
+        B2 = 10
+        S = 11
+        U = 12
+
+    ROW_ANNOTATION = typing.Tuple[
+        int,
+        int,
+        str,
+        bool,
+        float,
+        float,
+        a.col.Col,
+        a.msk.Msk,
+        int,
+        a.blob.Blob,
+        a.blob.Blob,
+        a.simple.Simple,
+        int]
diff --git a/py/a/tpl_string.py b/py/a/tpl_string.py
new file mode 100644
index 0000000..57e146a
--- /dev/null
+++ b/py/a/tpl_string.py
@@ -0,0 +1,150 @@
+# Automatically generated by Zserio Python generator version 1.1.2 using Zserio core 2.18.2.
+# Generator setup: writerCode, pubsubCode, serviceCode, sqlCode
+
+from __future__ import annotations
+from enum import Enum, IntEnum
+
+import typing
+import apsw
+
+class Tpl_string:
+    class Rows:
+        def __init__(self, rows: typing.Iterator['Tpl_string.ROW_ANNOTATION'],
+                column_map: typing.List[bool]
+                ) -> None:
+            self._rows = rows
+            self._column_map = column_map
+
+        def __iter__(self) -> typing.Iterator['Tpl_string.ROW_ANNOTATION']:
+            for row in self._rows:
+                yield row
+
+    def __init__(self, connection: apsw.Connection, table_name: str, attached_db_name: str = None) -> None:
+        self._connection: apsw.Connection = connection
+        self._table_name: str = table_name
+        self._attached_db_name: str = attached_db_name
+
+    def create_table(self) -> None:
+        sql_query = self._get_create_table_query()
+        cursor = self._connection.cursor()
+        cursor.execute(sql_query)
+
+    def delete_table(self) -> None:
+        sql_query = "DROP TABLE "
+        sql_query += self._get_table_name_in_query()
+        cursor = self._connection.cursor()
+        cursor.execute(sql_query)
+
+    def read(self, condition: str = None) -> 'Tpl_string.Rows':
+        return self.read_columns(None, condition)
+
+    def read_columns(self, columns: typing.List[str], condition: str = None) -> 'Tpl_string.Rows':
+        column_map = self._create_column_mapping(columns)
+        sql_query = "SELECT "
+        sql_query += self._get_columns_in_query(column_map, self._ColumnFormat.NAME)
+        sql_query += " FROM "
+        sql_query += self._get_table_name_in_query()
+        if condition:
+            sql_query += " WHERE " + condition
+
+        cursor = self._connection.cursor()
+        read_rows = cursor.execute(sql_query)
+
+        return Tpl_string.Rows(read_rows, column_map)
+
+    def write(self, rows: typing.Sequence['Tpl_string.ROW_ANNOTATION'], columns: typing.List[str] = None) -> None:
+        column_map = self._create_column_mapping(columns)
+        sql_query = "INSERT INTO "
+        sql_query += self._get_table_name_in_query()
+        sql_query += "("
+        sql_query += self._get_columns_in_query(column_map, self._ColumnFormat.NAME)
+        sql_query += ") VALUES ("
+        sql_query += self._get_columns_in_query(column_map, self._ColumnFormat.SQL_PARAMETER)
+        sql_query += ")"
+
+        cursor = self._connection.cursor()
+        has_autocommit = self._connection.getautocommit()
+        if has_autocommit:
+            cursor.execute("BEGIN")
+
+        for row in rows:
+            cursor.execute(sql_query, row)
+
+        if has_autocommit:
+            cursor.execute("COMMIT")
+
+    def update(self, row: 'Tpl_string.ROW_ANNOTATION', where_condition: str) -> None:
+        """
+        Updates rows of the table.
+
+        :param row: Updated values
+        :param where_condition: SQL where condition to use.
+        """
+        return self.update_columns(row, None, where_condition)
+
+    def update_columns(self, row: 'Tpl_string.ROW_ANNOTATION', columns: typing.List[str], where_condition: str) -> None:
+        column_map = self._create_column_mapping(columns)
+        sql_query = "UPDATE "
+        sql_query += self._get_table_name_in_query()
+        sql_query += " SET "
+        sql_query += self._get_columns_in_query(column_map, self._ColumnFormat.SQL_UPDATE)
+        sql_query += " WHERE "
+        sql_query += where_condition
+
+        cursor = self._connection.cursor()
+        cursor.execute(sql_query, row)
+
+    def _create_column_mapping(self, columns: typing.List[str]) -> typing.List[bool]:
+        if columns is None:
+            column_map = [True] * 2
+        else:
+            try:
+                column_map = [False] * 2
+                for col in columns:
+                    idx = self.COLUMN_NAMES.index(col)
+                    column_map[idx] = True
+            except ValueError as exc:
+                raise ValueError("Column name '" + col + "' doesn't exist in 'Tpl_string'!") from exc
+
+        return column_map
+
+    def _get_table_name_in_query(self) -> str:
+        return (self._attached_db_name + "." + self._table_name) if self._attached_db_name else self._table_name
+
+    def _get_columns_in_query(self, column_map: typing.List[bool], fmt: _ColumnFormat) -> str:
+        columns = []
+
+        if column_map[0]:
+            columns.append("id" if fmt == self._ColumnFormat.NAME else "id=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+        if column_map[1]:
+            columns.append("val" if fmt == self._ColumnFormat.NAME else "val=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+
+        return ",".join(columns)
+
+
+    def _get_create_table_query(self) -> str:
+        sql_query = "CREATE TABLE "
+        sql_query += self._get_table_name_in_query()
+        sql_query += ("(" +
+                     "id INTEGER" + " " + "PRIMARY KEY" + "," +
+                     "val TEXT" +
+                     ")")
+
+        return sql_query
+
+    class _ColumnFormat(Enum):
+        NAME = 1
+        SQL_PARAMETER = 2
+        SQL_UPDATE = 3
+
+    COLUMN_NAMES = (
+        "id",
+        "val")
+
+    class Column(IntEnum):
+        ID = 0
+        VAL = 1
+
+    ROW_ANNOTATION = typing.Tuple[
+        int,
+        str]
diff --git a/py/a/worowid.py b/py/a/worowid.py
new file mode 100644
index 0000000..f582422
--- /dev/null
+++ b/py/a/worowid.py
@@ -0,0 +1,158 @@
+# Automatically generated by Zserio Python generator version 1.1.2 using Zserio core 2.18.2.
+# Generator setup: writerCode, pubsubCode, serviceCode, sqlCode
+
+from __future__ import annotations
+from enum import Enum, IntEnum
+
+import typing
+import apsw
+
+class Worowid:
+    class Rows:
+        def __init__(self, rows: typing.Iterator['Worowid.ROW_ANNOTATION'],
+                column_map: typing.List[bool]
+                ) -> None:
+            self._rows = rows
+            self._column_map = column_map
+
+        def __iter__(self) -> typing.Iterator['Worowid.ROW_ANNOTATION']:
+            for row in self._rows:
+                yield row
+
+    def __init__(self, connection: apsw.Connection, table_name: str, attached_db_name: str = None) -> None:
+        self._connection: apsw.Connection = connection
+        self._table_name: str = table_name
+        self._attached_db_name: str = attached_db_name
+
+    def create_table(self) -> None:
+        sql_query = self._get_create_table_query()
+        sql_query += " WITHOUT ROWID"
+        cursor = self._connection.cursor()
+        cursor.execute(sql_query)
+
+    def create_ordinary_rowid_table(self) -> None:
+        sql_query = self._get_create_table_query()
+        cursor = self._connection.cursor()
+        cursor.execute(sql_query)
+
+    def delete_table(self) -> None:
+        sql_query = "DROP TABLE "
+        sql_query += self._get_table_name_in_query()
+        cursor = self._connection.cursor()
+        cursor.execute(sql_query)
+
+    def read(self, condition: str = None) -> 'Worowid.Rows':
+        return self.read_columns(None, condition)
+
+    def read_columns(self, columns: typing.List[str], condition: str = None) -> 'Worowid.Rows':
+        column_map = self._create_column_mapping(columns)
+        sql_query = "SELECT "
+        sql_query += self._get_columns_in_query(column_map, self._ColumnFormat.NAME)
+        sql_query += " FROM "
+        sql_query += self._get_table_name_in_query()
+        if condition:
+            sql_query += " WHERE " + condition
+
+        cursor = self._connection.cursor()
+        read_rows = cursor.execute(sql_query)
+
+        return Worowid.Rows(read_rows, column_map)
+
+    def write(self, rows: typing.Sequence['Worowid.ROW_ANNOTATION'], columns: typing.List[str] = None) -> None:
+        column_map = self._create_column_mapping(columns)
+        sql_query = "INSERT INTO "
+        sql_query += self._get_table_name_in_query()
+        sql_query += "("
+        sql_query += self._get_columns_in_query(column_map, self._ColumnFormat.NAME)
+        sql_query += ") VALUES ("
+        sql_query += self._get_columns_in_query(column_map, self._ColumnFormat.SQL_PARAMETER)
+        sql_query += ")"
+
+        cursor = self._connection.cursor()
+        has_autocommit = self._connection.getautocommit()
+        if has_autocommit:
+            cursor.execute("BEGIN")
+
+        for row in rows:
+            cursor.execute(sql_query, row)
+
+        if has_autocommit:
+            cursor.execute("COMMIT")
+
+    def update(self, row: 'Worowid.ROW_ANNOTATION', where_condition: str) -> None:
+        """
+        Updates rows of the table.
+
+        :param row: Updated values
+        :param where_condition: SQL where condition to use.
+        """
+        return self.update_columns(row, None, where_condition)
+
+    def update_columns(self, row: 'Worowid.ROW_ANNOTATION', columns: typing.List[str], where_condition: str) -> None:
+        column_map = self._create_column_mapping(columns)
+        sql_query = "UPDATE "
+        sql_query += self._get_table_name_in_query()
+        sql_query += " SET "
+        sql_query += self._get_columns_in_query(column_map, self._ColumnFormat.SQL_UPDATE)
+        sql_query += " WHERE "
+        sql_query += where_condition
+
+        cursor = self._connection.cursor()
+        cursor.execute(sql_query, row)
+
+    def _create_column_mapping(self, columns: typing.List[str]) -> typing.List[bool]:
+        if columns is None:
+            column_map = [True] * 2
+        else:
+            try:
+                column_map = [False] * 2
+                for col in columns:
+                    idx = self.COLUMN_NAMES.index(col)
+                    column_map[idx] = True
+            except ValueError as exc:
+                raise ValueError("Column name '" + col + "' doesn't exist in 'Worowid'!") from exc
+
+        return column_map
+
+    def _get_table_name_in_query(self) -> str:
+        return (self._attached_db_name + "." + self._table_name) if self._attached_db_name else self._table_name
+
+    def _get_columns_in_query(self, column_map: typing.List[bool], fmt: _ColumnFormat) -> str:
+        columns = []
+
+        if column_map[0]:
+            columns.append("k" if fmt == self._ColumnFormat.NAME else "k=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+        if column_map[1]:
+            columns.append("v" if fmt == self._ColumnFormat.NAME else "v=?" if fmt == self._ColumnFormat.SQL_UPDATE else "?")
+
+        return ",".join(columns)
+
+
+    def _get_create_table_query(self) -> str:
+        sql_query = "CREATE TABLE "
+        sql_query += self._get_table_name_in_query()
+        sql_query += ("(" +
+                     "k TEXT" + " " + "NOT NULL" + "," +
+                     "v INTEGER" +
+                     ", " +
+                     "PRIMARY KEY(k)" +
+                     ")")
+
+        return sql_query
+
+    class _ColumnFormat(Enum):
+        NAME = 1
+        SQL_PARAMETER = 2
+        SQL_UPDATE = 3
+
+    COLUMN_NAMES = (
+        "k",
+        "v")
+
+    class Column(IntEnum):
+        K = 0
+        V = 1
+
+    ROW_ANNOTATION = typing.Tuple[
+        str,
+        int]
-- 
2.43.0


From 87bb39903bc8407f36a9495bf94a9234a55d79cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:04 +0000
Subject: [PATCH 41/70] fix: octal escapes of strings with four digits or
 followed by a concatenated digit

---
 compiler/core/src/zserio/ast/Expression.java | 30 ++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/compiler/core/src/zserio/ast/Expression.java b/compiler/core/src/zserio/ast/Expression.java
index 29c1f51..f76772c 100644
--- a/compiler/core/src/zserio/ast/Expression.java
+++ b/compiler/core/src/zserio/ast/Expression.java
@@ -8,6 +8,8 @@ import java.util.LinkedHashSet;
 import java.util.List;
 import java.util.Map;
 import java.util.Set;
+import java.util.regex.Matcher;
+import java.util.regex.Pattern;
 
 import zserio.antlr.ZserioParser;
 import zserio.ast.Scope.FoundSymbol;
@@ -1912,6 +1914,10 @@ public final class Expression extends AstNodeBase
             expressionText = stripFloatLiteral(expressionText);
             break;
 
+        case ZserioParser.STRING_LITERAL:
+            expressionText = convertOctalEscapes(expressionText);
+            break;
+
         default:
             break;
         }
@@ -1958,6 +1964,28 @@ public final class Expression extends AstNodeBase
         return (postfixPos == -1) ? strippedStringLiteral : strippedStringLiteral.substring(0, postfixPos);
     }
 
+    /**
+     * Converts octal escapes to hexadecimal ones.
+     *
+     * The length of octal escapes depends on the following characters and languages of generators do not
+     * support octal escapes which have four digits.
+     */
+    private static String convertOctalEscapes(String stringLiteral)
+    {
+        final Matcher escapeMatcher = STRING_ESCAPE_PATTERN.matcher(stringLiteral);
+        final StringBuffer buffer = new StringBuffer();
+        while (escapeMatcher.find())
+        {
+            final String octalDigits = escapeMatcher.group(1);
+            final String escape = (octalDigits == null)
+                    ? escapeMatcher.group()
+                    : String.format("\\x%02x", Integer.parseInt(octalDigits, 8));
+            escapeMatcher.appendReplacement(buffer, Matcher.quoteReplacement(escape));
+        }
+
+        return escapeMatcher.appendTail(buffer).toString();
+    }
+
     private static int findChars(String text, char firstChar, char secondChar)
     {
         int pos = text.indexOf(firstChar);
@@ -1967,6 +1995,8 @@ public final class Expression extends AstNodeBase
         return pos;
     }
 
+    private static final Pattern STRING_ESCAPE_PATTERN = Pattern.compile("\\\\(?:0([0-3]?[0-7][0-7]?)|.)");
+
     private final Package pkg;
 
     private final int type;
-- 
2.43.0


From 70e11ef11710455670bd30e3d3258639ea64cb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:04 +0000
Subject: [PATCH 42/70] fix: compiler evaluates lengthof of strings with
 escapes to a wrong value

---
 compiler/core/src/zserio/ast/Expression.java | 23 +++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/compiler/core/src/zserio/ast/Expression.java b/compiler/core/src/zserio/ast/Expression.java
index f76772c..18c8a81 100644
--- a/compiler/core/src/zserio/ast/Expression.java
+++ b/compiler/core/src/zserio/ast/Expression.java
@@ -1272,8 +1272,9 @@ public final class Expression extends AstNodeBase
         {
             if (operand1.expressionStringValue != null)
             {
-                expressionIntegerValue = new ExpressionIntegerValue(BigInteger.valueOf(
-                        operand1.expressionStringValue.getBytes(StandardCharsets.UTF_8).length));
+                final String unescapedString = unescapeString(operand1.expressionStringValue);
+                expressionIntegerValue = new ExpressionIntegerValue(
+                        BigInteger.valueOf(unescapedString.getBytes(StandardCharsets.UTF_8).length));
             }
             else
             {
@@ -1986,6 +1987,21 @@ public final class Expression extends AstNodeBase
         return escapeMatcher.appendTail(buffer).toString();
     }
 
+    private static String unescapeString(String escapedString)
+    {
+        final Matcher escapeMatcher = STRING_ESCAPE_PATTERN.matcher(escapedString);
+        final StringBuffer buffer = new StringBuffer();
+        while (escapeMatcher.find())
+        {
+            // all characters which are escaped by a single character have the length of one byte
+            final String hexDigits = escapeMatcher.group(2);
+            final char character = (hexDigits == null) ? ' ' : (char)Integer.parseInt(hexDigits, 16);
+            escapeMatcher.appendReplacement(buffer, Matcher.quoteReplacement(String.valueOf(character)));
+        }
+
+        return escapeMatcher.appendTail(buffer).toString();
+    }
+
     private static int findChars(String text, char firstChar, char secondChar)
     {
         int pos = text.indexOf(firstChar);
@@ -1995,7 +2011,8 @@ public final class Expression extends AstNodeBase
         return pos;
     }
 
-    private static final Pattern STRING_ESCAPE_PATTERN = Pattern.compile("\\\\(?:0([0-3]?[0-7][0-7]?)|.)");
+    private static final Pattern STRING_ESCAPE_PATTERN = Pattern.compile(
+            "\\\\(?:0([0-3]?[0-7][0-7]?)|[ux]((?<=u)[0-9a-fA-F]{4}|(?<=x)[0-9a-fA-F]{2})|.)");
 
     private final Package pkg;
 
-- 
2.43.0


From 02e85b0b608ef8a7dad87f73715a0e5aa92b0c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:21 +0000
Subject: [PATCH 43/70] fix: C++ SQL table reads blobs from a wrong column when
 only some columns are read

---
 compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 218bc7e..9dcd320 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -200,8 +200,8 @@ ${name}::Row ${name}::Reader::next()
         if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
         {
         <#if field.sqlTypeData.isBlob>
-            const void* blobData = sqlite3_column_blob(m_stmt.get(), ${field?index});
-            const int blobDataLength = sqlite3_column_bytes(m_stmt.get(), ${field?index});
+            const void* blobData = sqlite3_column_blob(m_stmt.get(), index);
+            const int blobDataLength = sqlite3_column_bytes(m_stmt.get(), index);
             ::zserio::BitStreamReader reader(static_cast<const uint8_t*>(blobData),
                     static_cast<size_t>(blobDataLength));
             <@read_blob field, "m_parameterProvider"/>
-- 
2.43.0


From 397da5b6f073a197100ff78c56716c2446134ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:30 +0000
Subject: [PATCH 44/70] fix: SQL validation refuses primary key columns of
 WITHOUT ROWID tables

---
 compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl   | 3 +++
 compiler/extensions/java/freemarker/SqlTable.java.ftl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 9dcd320..9b59fc2 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -475,6 +475,8 @@ bool ${name}::validateColumn${field.name?cap_first}(::zserio::IValidationObserve
         return false;
     }
 
+        <#-- SQLite implies NOT NULL for primary key columns of WITHOUT ROWID tables -->
+        <#if field.isNotNull || !(isWithoutRowId && field.isPrimaryKey)>
     if (<#if field.isNotNull>!</#if>column.isNotNull)
     {
         continueValidation = validationObserver.reportError(m_name, ::zserio::makeStringView("${field.name}"),
@@ -485,6 +487,7 @@ bool ${name}::validateColumn${field.name?cap_first}(::zserio::IValidationObserve
                         "but the column is expected to be <#if field.isNotNull>NOT </#if>NULL-able"));
         return false;
     }
+        </#if>
 
     if (<#if field.isPrimaryKey>!</#if>column.isPrimaryKey)
     {
diff --git a/compiler/extensions/java/freemarker/SqlTable.java.ftl b/compiler/extensions/java/freemarker/SqlTable.java.ftl
index 8be2561..d47df72 100644
--- a/compiler/extensions/java/freemarker/SqlTable.java.ftl
+++ b/compiler/extensions/java/freemarker/SqlTable.java.ftl
@@ -767,6 +767,8 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
             return false;
         }
 
+        <#-- SQLite implies NOT NULL for primary key columns of WITHOUT ROWID tables -->
+        <#if field.isNotNull || !(isWithoutRowId && field.isPrimaryKey)>
         if (<#if field.isNotNull>!</#if>column.isNotNull())
         {
             errors.add(new zserio.runtime.validation.ValidationError(tableName, "${field.name}",
@@ -775,6 +777,7 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
                     "but the column is expected to be <#if field.isNotNull>NOT </#if>NULL-able"));
             return false;
         }
+        </#if>
 
         if (<#if field.isPrimaryKey>!</#if>column.isPrimaryKey())
         {
-- 
2.43.0


From e5abf510d3aa3fccf177c06a950ca4fbaa6b7f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:25 +0000
Subject: [PATCH 45/70] fix: C++ SQL validation of column types ignores the
 request to skip the rest of the table

---
 compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 9b59fc2..2d8305c 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -358,7 +358,7 @@ bool ${name}::validate(::zserio::IValidationObserver& validationObserver<#rt>
             ++numberOfValidatedRows;
 
         <#list fields as field>
-            if (!validateType${field.name?cap_first}(validationObserver, statement.get(), continueValidation))
+            if (!validateType${field.name?cap_first}(validationObserver, statement.get(), continueTableValidation))
             {
                 continue;
             }
-- 
2.43.0


From 5d724c6308fceeecf42332ada05d89ef38fa11e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 46/70] fix: Regex walk filter skips arrays of which only a
 compound element matches

---
 compiler/extensions/cpp/runtime/src/zserio/Walker.h          | 5 +++++
 .../runtime/src/zserio/runtime/walker/RegexWalkFilter.java   | 2 ++
 compiler/extensions/python/runtime/src/zserio/walker.py      | 2 ++
 3 files changed, 9 insertions(+)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/Walker.h b/compiler/extensions/cpp/runtime/src/zserio/Walker.h
index 6493ec4..0fab3b6 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/Walker.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/Walker.h
@@ -779,6 +779,11 @@ bool BasicRegexWalkFilter<ALLOC>::beforeArray(
         m_currentPath.back() =
                 toString(fieldInfo.schemaName, m_allocator) + "[" + toString(i, m_allocator) + "]";
 
+        if (std::regex_match(getCurrentPath(), m_pathRegex))
+        {
+            return true; // the element itself matches
+        }
+
         if (matchSubtree(array->at(i), fieldInfo))
         {
             return true;
diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/walker/RegexWalkFilter.java b/compiler/extensions/java/runtime/src/zserio/runtime/walker/RegexWalkFilter.java
index c26f4f7..cc1f6c6 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/walker/RegexWalkFilter.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/walker/RegexWalkFilter.java
@@ -41,6 +41,8 @@ public final class RegexWalkFilter implements WalkFilter
         for (int i = 0; i < length; ++i)
         {
             currentPath.set(currentPath.size() - 1, fieldInfo.getSchemaName() + "[" + i + "]");
+            if (Pattern.matches(pathRegex, getCurrentPath()))
+                return true; // the element itself matches
             final Object element = Array.get(array, i);
             if (matchSubtree(element, fieldInfo))
                 return true;
diff --git a/compiler/extensions/python/runtime/src/zserio/walker.py b/compiler/extensions/python/runtime/src/zserio/walker.py
index 5feb0de..727474e 100644
--- a/compiler/extensions/python/runtime/src/zserio/walker.py
+++ b/compiler/extensions/python/runtime/src/zserio/walker.py
@@ -476,6 +476,8 @@ class RegexWalkFilter(WalkFilter):
         # (note that array is never None)
         for i, element in enumerate(array):
             self._current_path[-1] = member_info.schema_name + f"[{i}]"
+            if self._path_regex.match(self._get_current_path()):
+                return True  # the element itself matches
             if self._match_subtree(element, member_info):
                 return True
         self._current_path[-1] = member_info.schema_name
-- 
2.43.0


From bd4bd454a338e889ee77410872b47ec94a1bb80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:08 +0000
Subject: [PATCH 47/70] fix: Java tree creator loses a level when a compound
 element is ended as a field

---
 .../runtime/src/zserio/runtime/creator/ZserioTreeCreator.java  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/creator/ZserioTreeCreator.java b/compiler/extensions/java/runtime/src/zserio/runtime/creator/ZserioTreeCreator.java
index 7f3451e..09ded71 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/creator/ZserioTreeCreator.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/creator/ZserioTreeCreator.java
@@ -143,10 +143,11 @@ public final class ZserioTreeCreator
             throw new ZserioError("ZserioTreeCreator: Cannot end compound in state '" + state + "'" +
                     (fieldInfoStack.isEmpty() ? " (expecting endRoot)!" : "!"));
 
-        final FieldInfo fieldInfo = fieldInfoStack.pop();
+        final FieldInfo fieldInfo = fieldInfoStack.peek();
         if (fieldInfo.isArray())
             throw new ZserioError("ZserioTreeCreator: Cannot end compound, it's an array element!");
 
+        fieldInfoStack.pop();
         final Object compound = valueStack.pop();
         final TypeInfo parentTypeInfo = getTypeInfo();
         final Object parent = valueStack.peek();
-- 
2.43.0


From 13be49887e2486f2e7226597c89457b9d1a3fa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:30 +0000
Subject: [PATCH 48/70] fix: C++ propagating copies of unions leave the
 initialization flag undefined

---
 compiler/extensions/cpp/freemarker/Union.cpp.ftl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/extensions/cpp/freemarker/Union.cpp.ftl b/compiler/extensions/cpp/freemarker/Union.cpp.ftl
index 95ad2b3..f7ce226 100644
--- a/compiler/extensions/cpp/freemarker/Union.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/Union.cpp.ftl
@@ -226,6 +226,7 @@ ${name}::${name}(::zserio::PropagateAllocatorT, ::zserio::NoInitT,
         const ${name}& other, const allocator_type&<#rt>
         <#lt><#if fieldList?has_content> allocator</#if>)<#rt>
 <@cpp_initializer_list>
+        m_isInitialized(false)
     <#if withParsingInfoCode>
         m_parsingInfo(other.m_parsingInfo)
     </#if>
-- 
2.43.0


From 4777edc092196ca3a5aac32aec0358dc72c67ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:30 +0000
Subject: [PATCH 49/70] fix: C++ self-assignment of arrays of parameterized
 compounds drops all elements

---
 compiler/extensions/cpp/runtime/src/zserio/Array.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/Array.h b/compiler/extensions/cpp/runtime/src/zserio/Array.h
index 2f01896..e1871f7 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/Array.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/Array.h
@@ -458,6 +458,11 @@ public:
             typename std::enable_if<std::is_constructible<T, NoInitT, T>::value, int>::type = 0>
     Array& assign(NoInitT, const Array& other)
     {
+        if (this == &other)
+        {
+            return *this;
+        }
+
         const RawArray rawArray(other.m_rawArray.get_allocator());
         m_rawArray = rawArray; // copy assign to get correct allocator propagation behaviour
         m_rawArray.reserve(other.m_rawArray.size());
-- 
2.43.0


From 2ccaff471f2ea2e63933d17d707515233757db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:30 +0000
Subject: [PATCH 50/70] fix: C++ StringView::find_last_of and find_last_not_of
 find nothing from the default position

---
 compiler/extensions/cpp/runtime/src/zserio/StringView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/StringView.h b/compiler/extensions/cpp/runtime/src/zserio/StringView.h
index 8c28944..642f697 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/StringView.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/StringView.h
@@ -661,7 +661,7 @@ public:
             return npos;
         }
 
-        for (size_type idx = std::min(pos + 1, size()); idx > 0; --idx)
+        for (size_type idx = (pos < size()) ? pos + 1 : size(); idx > 0; --idx)
         {
             if (Traits::find(str.data(), str.size(), data()[idx - 1]) != nullptr)
             {
@@ -785,7 +785,7 @@ public:
             return npos;
         }
 
-        for (size_type idx = std::min(pos + 1, size()); idx > 0; --idx)
+        for (size_type idx = (pos < size()) ? pos + 1 : size(); idx > 0; --idx)
         {
             if (Traits::find(str.data(), str.size(), data()[idx - 1]) == nullptr)
             {
-- 
2.43.0


From 493ec93b9b9ce48325b9ef18f902c9c1b6f378e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:30 +0000
Subject: [PATCH 51/70] fix: C++ AnyHolder leaks or is corrupted when a copy of
 its value throws

---
 .../cpp/runtime/src/zserio/AnyHolder.h        | 80 ++++++++++++++-----
 1 file changed, 62 insertions(+), 18 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/AnyHolder.h b/compiler/extensions/cpp/runtime/src/zserio/AnyHolder.h
index 723c423..089fae4 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/AnyHolder.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/AnyHolder.h
@@ -166,14 +166,30 @@ public:
     IHolder<ALLOC>* clone(const ALLOC& allocator) const override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(this->getHolder());
+        try
+        {
+            holder->setHolder(this->getHolder());
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
     IHolder<ALLOC>* clone(NoInitT, const ALLOC& allocator) const override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(NoInit, this->getHolder());
+        try
+        {
+            holder->setHolder(NoInit, this->getHolder());
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -190,14 +206,30 @@ public:
     IHolder<ALLOC>* move(const ALLOC& allocator) override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(std::move(this->getHolder()));
+        try
+        {
+            holder->setHolder(std::move(this->getHolder()));
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
     IHolder<ALLOC>* move(NoInitT, const ALLOC& allocator) override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(NoInit, std::move(this->getHolder()));
+        try
+        {
+            holder->setHolder(NoInit, std::move(this->getHolder()));
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -349,9 +381,8 @@ public:
                             !std::is_same<typename std::decay<T>::type, ALLOC>::value,
                     int>::type = 0>
     explicit AnyHolder(T&& value, const ALLOC& allocator = ALLOC()) :
-            AllocatorHolder<ALLOC>(allocator)
+            AnyHolder(allocator)
     {
-        m_untypedHolder.heap = nullptr;
         set(std::forward<T>(value));
     }
 
@@ -364,9 +395,8 @@ public:
             typename std::enable_if<!std::is_same<typename std::decay<T>::type, AnyHolder>::value, int>::type =
                     0>
     explicit AnyHolder(NoInitT, T&& value, const ALLOC& allocator = ALLOC()) :
-            AllocatorHolder<ALLOC>(allocator)
+            AnyHolder(allocator)
     {
-        m_untypedHolder.heap = nullptr;
         set(NoInit, std::forward<T>(value));
     }
 
@@ -384,8 +414,7 @@ public:
      * \param other Any holder to copy.
      */
     AnyHolder(const AnyHolder& other) :
-            AllocatorHolder<ALLOC>(
-                    AllocTraits::select_on_container_copy_construction(other.get_allocator_ref()))
+            AnyHolder(AllocTraits::select_on_container_copy_construction(other.get_allocator_ref()))
     {
         copy(other);
     }
@@ -396,8 +425,7 @@ public:
      * \param other Any holder to copy.
      */
     AnyHolder(NoInitT, const AnyHolder& other) :
-            AllocatorHolder<ALLOC>(
-                    AllocTraits::select_on_container_copy_construction(other.get_allocator_ref()))
+            AnyHolder(AllocTraits::select_on_container_copy_construction(other.get_allocator_ref()))
     {
         copy(NoInit, other);
     }
@@ -409,7 +437,7 @@ public:
      * \param allocator Allocator to be used for dynamic memory allocations.
      */
     AnyHolder(const AnyHolder& other, const ALLOC& allocator) :
-            AllocatorHolder<ALLOC>(allocator)
+            AnyHolder(allocator)
     {
         copy(other);
     }
@@ -421,7 +449,7 @@ public:
      * \param allocator Allocator to be used for dynamic memory allocations.
      */
     AnyHolder(NoInitT, const AnyHolder& other, const ALLOC& allocator) :
-            AllocatorHolder<ALLOC>(allocator)
+            AnyHolder(allocator)
     {
         copy(NoInit, other);
     }
@@ -501,7 +529,7 @@ public:
      * \param allocator Allocator to be used for dynamic memory allocations.
      */
     AnyHolder(AnyHolder&& other, const ALLOC& allocator) :
-            AllocatorHolder<ALLOC>(allocator)
+            AnyHolder(allocator)
     {
         move(std::move(other));
     }
@@ -513,7 +541,7 @@ public:
      * \param allocator Allocator to be used for dynamic memory allocations.
      */
     AnyHolder(NoInitT, AnyHolder&& other, const ALLOC& allocator) :
-            AllocatorHolder<ALLOC>(allocator)
+            AnyHolder(allocator)
     {
         move(NoInit, std::move(other));
     }
@@ -663,7 +691,15 @@ private:
     {
         if (other.m_isInPlace)
         {
-            other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            try
+            {
+                other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            }
+            catch (...)
+            {
+                m_untypedHolder.heap = nullptr;
+                throw;
+            }
             m_isInPlace = true;
         }
         else if (other.m_untypedHolder.heap != nullptr)
@@ -680,7 +716,15 @@ private:
     {
         if (other.m_isInPlace)
         {
-            other.getUntypedHolder()->clone(NoInit, &m_untypedHolder.inPlace);
+            try
+            {
+                other.getUntypedHolder()->clone(NoInit, &m_untypedHolder.inPlace);
+            }
+            catch (...)
+            {
+                m_untypedHolder.heap = nullptr;
+                throw;
+            }
             m_isInPlace = true;
         }
         else if (other.m_untypedHolder.heap != nullptr)
-- 
2.43.0


From 896e1cfcbb40e75691e296240222a7ea9ff4f8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:55 +0000
Subject: [PATCH 52/70] fix: Python bitsizeof ignores alignment of indexed
 offsets when writer code is not generated

---
 compiler/extensions/python/runtime/src/zserio/array.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/python/runtime/src/zserio/array.py b/compiler/extensions/python/runtime/src/zserio/array.py
index 375a9a6..d3d18ff 100644
--- a/compiler/extensions/python/runtime/src/zserio/array.py
+++ b/compiler/extensions/python/runtime/src/zserio/array.py
@@ -185,14 +185,14 @@ class Array:
 
         if self._array_traits.HAS_BITSIZEOF_CONSTANT and size > 0:
             element_size = self._array_traits.bitsizeof()
-            if self._set_offset_method is None:
+            if self._check_offset_method is None:
                 end_bitposition += size * element_size
             else:
                 end_bitposition = alignto(8, end_bitposition)
                 end_bitposition += element_size + (size - 1) * alignto(8, element_size)
         else:
             array_traits_bitsizeof = self._array_traits.bitsizeof
-            if self._set_offset_method is not None:
+            if self._check_offset_method is not None:
                 if self._array_traits.NEEDS_BITSIZEOF_POSITION:
                     for element in self._raw_array:
                         end_bitposition = alignto(8, end_bitposition)
@@ -232,7 +232,7 @@ class Array:
             for element in self._raw_array:
                 packed_array_traits_init_context(context, element)
 
-            if self._set_offset_method is not None:
+            if self._check_offset_method is not None:
                 for element in self._raw_array:
                     end_bitposition = alignto(8, end_bitposition)
                     end_bitposition += packed_array_traits_bitsizeof(context, end_bitposition, element)
-- 
2.43.0


From bfa1a8bb55062a44f0bf9471013157a4b12bd355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:55 +0000
Subject: [PATCH 53/70] fix: Java preallocated array size of SerializeUtil
 cannot be used outside of its package

---
 .../java/runtime/src/zserio/runtime/io/SerializeUtil.java     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java
index 78bd4c3..a97c9a2 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java
@@ -35,7 +35,7 @@ public final class SerializeUtil
          *
          * @param preallocatedArraySize The preallocated array size in the number of elements.
          */
-        PreallocatedArraySize(int preallocatedArraySize)
+        public PreallocatedArraySize(int preallocatedArraySize)
         {
             this.preallocatedArraySize = preallocatedArraySize;
         }
@@ -45,7 +45,7 @@ public final class SerializeUtil
          *
          * @return The preallocated array size in the number of elements.
          */
-        int get()
+        public int get()
         {
             return preallocatedArraySize;
         }
-- 
2.43.0


From dcde12caf62bc2a364db4185a5d417ea7d7936a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:55 +0000
Subject: [PATCH 54/70] fix: Java bitSizeOf ignores alignment of indexed
 offsets when writer code is not generated

---
 .../java/runtime/src/zserio/runtime/array/Array.java        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/array/Array.java b/compiler/extensions/java/runtime/src/zserio/runtime/array/Array.java
index 35ec4fa..aaaaf41 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/array/Array.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/array/Array.java
@@ -117,7 +117,7 @@ public final class Array
             if (arrayTraits.isBitSizeOfConstant())
             {
                 final int elementSize = arrayTraits.bitSizeOf(endBitPosition, ArrayElement.Dummy);
-                if (offsetInitializer == null)
+                if (offsetChecker == null)
                 {
                     endBitPosition += size * elementSize;
                 }
@@ -132,7 +132,7 @@ public final class Array
             {
                 for (int index = 0; index < size; ++index)
                 {
-                    if (offsetInitializer != null)
+                    if (offsetChecker != null)
                         endBitPosition = BitPositionUtil.alignTo(Byte.SIZE, endBitPosition);
 
                     endBitPosition += arrayTraits.bitSizeOf(endBitPosition, rawArray.getElement(index));
@@ -167,7 +167,7 @@ public final class Array
 
             for (int index = 0; index < size; ++index)
             {
-                if (offsetInitializer != null)
+                if (offsetChecker != null)
                     endBitPosition = BitPositionUtil.alignTo(Byte.SIZE, endBitPosition);
 
                 endBitPosition +=
-- 
2.43.0


From c5bdd3f55e3c349615e84f5635a3a21446dc976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:55 +0000
Subject: [PATCH 55/70] fix: C++ write error which shows up on the last flush
 is silently lost

---
 compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h | 2 +-
 compiler/extensions/cpp/runtime/src/zserio/FileUtil.cpp      | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h b/compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h
index e77522e..f094f3f 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h
@@ -66,7 +66,7 @@ void toJsonFile(const T& object, const string<ALLOC>& fileName, uint8_t indent,
 
     detail::toJsonStream(object, stream, indent, walkFilter, allocator);
 
-    if (!stream)
+    if (!stream.flush())
     {
         throw CppRuntimeException("DebugStringUtil.toJsonFile: Failed to write '") << fileName << "'!";
     }
diff --git a/compiler/extensions/cpp/runtime/src/zserio/FileUtil.cpp b/compiler/extensions/cpp/runtime/src/zserio/FileUtil.cpp
index 38e2aa1..b3a96ed 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/FileUtil.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/FileUtil.cpp
@@ -16,7 +16,8 @@ void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, const std
     }
 
     const size_t byteSize = (bitSize + 7) / 8;
-    if (!stream.write(reinterpret_cast<const char*>(buffer), static_cast<std::streamsize>(byteSize)))
+    if (!stream.write(reinterpret_cast<const char*>(buffer), static_cast<std::streamsize>(byteSize)) ||
+            !stream.flush())
     {
         throw CppRuntimeException("writeBufferToFile: Failed to write '") << fileName << "'!";
     }
@@ -34,7 +35,7 @@ BitBuffer readBufferFromFile(const std::string& fileName)
     const std::streampos fileSize = stream.tellg();
     (void)stream.seekg(0);
 
-    if (static_cast<int>(fileSize) == -1)
+    if (fileSize == std::streampos(-1))
     {
         throw CppRuntimeException("readBufferFromFile: Failed to get file size of '") << fileName << "'!";
     }
-- 
2.43.0


From afeb88558d17aff7781007a1345295c8a72e2da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:55 +0000
Subject: [PATCH 56/70] fix: documentation shows pubsub topics with keywords
 which are not in the language

---
 .../doc/src/zserio/extension/doc/PubsubTemplateData.java    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/doc/src/zserio/extension/doc/PubsubTemplateData.java b/compiler/extensions/doc/src/zserio/extension/doc/PubsubTemplateData.java
index 768b72d..a8e2382 100644
--- a/compiler/extensions/doc/src/zserio/extension/doc/PubsubTemplateData.java
+++ b/compiler/extensions/doc/src/zserio/extension/doc/PubsubTemplateData.java
@@ -32,10 +32,10 @@ public final class PubsubTemplateData extends PackageTemplateDataBase
         public MessageTemplateData(PackageTemplateDataContext context, PubsubType pubsubType,
                 PubsubMessage pubsubMessage) throws ZserioExtensionException
         {
-            keyword = pubsubMessage.isPublished() && pubsubMessage.isSubscribed() ? "pubsub"
+            keyword = pubsubMessage.isPublished() && pubsubMessage.isSubscribed() ? "topic"
                     : pubsubMessage.isPublished()
-                    ? "publish"
-                    : "subscribe";
+                    ? "publish topic"
+                    : "subscribe topic";
             symbol = SymbolTemplateDataCreator.createData(context, pubsubType, pubsubMessage);
             final ExpressionFormatter docExpressionFormatter = context.getExpressionFormatter();
             topicDefinition = docExpressionFormatter.formatGetter(pubsubMessage.getTopicDefinitionExpr());
-- 
2.43.0


From 267ecbee92aa2618bee65471c0086b6edc3a141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:55 +0000
Subject: [PATCH 57/70] fix: documentation of constants opens a table body
 instead of closing it

---
 compiler/extensions/doc/freemarker/constant.html.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/doc/freemarker/constant.html.ftl b/compiler/extensions/doc/freemarker/constant.html.ftl
index 78dbf66..df39f26 100644
--- a/compiler/extensions/doc/freemarker/constant.html.ftl
+++ b/compiler/extensions/doc/freemarker/constant.html.ftl
@@ -25,7 +25,7 @@ ${I}    </td></tr>
 ${I}    <tr><td>
 ${I}      const <@symbol_reference typeSymbol/> <@symbol_reference symbol/> = ${value};
 ${I}    </td></tr>
-${I}  <tbody>
+${I}  </tbody>
     <@code_table_end indent/>
     <@used_by symbol, usedBySymbols, indent/>
 <#if collaborationDiagramSvg??>
-- 
2.43.0


From de4f5a29bc50d993b4b3c42685d2458eb12ecab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:32 +0000
Subject: [PATCH 58/70] fix: Java arrays cannot be read when the maximum size
 of a preallocated array is zero

---
 .../extensions/java/runtime/src/zserio/runtime/array/Array.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/array/Array.java b/compiler/extensions/java/runtime/src/zserio/runtime/array/Array.java
index aaaaf41..9253ed6 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/array/Array.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/array/Array.java
@@ -438,7 +438,7 @@ public final class Array
         final int arraySize = rawArray.size();
         if (index >= arraySize)
         {
-            final int newArraySize = (index * 2 > readSize) ? readSize : index * 2;
+            final int newArraySize = (index > readSize / 2) ? readSize : Math.max(index * 2, 1);
             rawArray.resize(newArraySize);
         }
         rawArray.setElement(element, index);
-- 
2.43.0


From 7f58c6248db592084d67aea812ff642ebc7a9894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:47 +0000
Subject: [PATCH 59/70] fix: documentation of SQL tables does not show that
 they are without rowid

---
 compiler/extensions/doc/freemarker/sql_table.html.ftl | 11 ++++++++++-
 .../zserio/extension/doc/SqlTableTemplateData.java    |  7 +++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/doc/freemarker/sql_table.html.ftl b/compiler/extensions/doc/freemarker/sql_table.html.ftl
index f2ffba7..640b0e8 100644
--- a/compiler/extensions/doc/freemarker/sql_table.html.ftl
+++ b/compiler/extensions/doc/freemarker/sql_table.html.ftl
@@ -18,7 +18,7 @@ ${I}    <#if virtualTableUsing?has_content>virtual </#if>SQL Table<#rt>
 ${I}  </span>
 ${I}</h2>
 
-<#assign columnCount=(fields?has_content)?then(3, (sqlConstraint?has_content)?then(2, 1))/>
+<#assign columnCount=(fields?has_content)?then(3, (sqlConstraint?has_content || isWithoutRowId)?then(2, 1))/>
     <@code_table_begin indent/>
 ${I}  <thead>
 <#if hasStickyDocComments(docComments)>
@@ -46,6 +46,15 @@ ${I}      <td colspan=${columnCount-1}>sql ${sqlConstraint};</td>
 ${I}    </tr>
 ${I}  </tbody>
 </#if>
+<#if isWithoutRowId>
+${I}  <tbody><tr><td colspan=${columnCount}>&nbsp;</td></tr></tbody>
+${I}  <tbody>
+${I}    <tr>
+${I}      <td class="indent"></td>
+${I}      <td colspan=${columnCount-1}>sql_without_rowid;</td>
+${I}    </tr>
+${I}  </tbody>
+</#if>
 ${I}  <tfoot>
 ${I}    <tr><td colspan=${columnCount}>};</td></tr>
 ${I}  </tfoot>
diff --git a/compiler/extensions/doc/src/zserio/extension/doc/SqlTableTemplateData.java b/compiler/extensions/doc/src/zserio/extension/doc/SqlTableTemplateData.java
index 719a423..d1f7fb3 100644
--- a/compiler/extensions/doc/src/zserio/extension/doc/SqlTableTemplateData.java
+++ b/compiler/extensions/doc/src/zserio/extension/doc/SqlTableTemplateData.java
@@ -22,6 +22,7 @@ public final class SqlTableTemplateData extends CompoundTypeTemplateData
                 ? ""
                 : context.getExpressionFormatter().formatGetter(sqlConstraintExpr);
         virtualTableUsing = sqlTableType.getVirtualTableUsingString();
+        isWithoutRowId = sqlTableType.isWithoutRowId();
     }
 
     public String getSqlConstraint()
@@ -34,6 +35,12 @@ public final class SqlTableTemplateData extends CompoundTypeTemplateData
         return virtualTableUsing;
     }
 
+    public boolean getIsWithoutRowId()
+    {
+        return isWithoutRowId;
+    }
+
     private final String sqlConstraint;
     private final String virtualTableUsing;
+    private final boolean isWithoutRowId;
 }
-- 
2.43.0


From 614ba0eb3257ab7137710e5d89d7a4050fd068a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:47 +0000
Subject: [PATCH 60/70] fix: documentation of choices does not show packed
 arrays

---
 compiler/extensions/doc/freemarker/choice.html.ftl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/doc/freemarker/choice.html.ftl b/compiler/extensions/doc/freemarker/choice.html.ftl
index 1ae0b55..e872e25 100644
--- a/compiler/extensions/doc/freemarker/choice.html.ftl
+++ b/compiler/extensions/doc/freemarker/choice.html.ftl
@@ -21,7 +21,8 @@ ${I}  </tr>
 ${I}  <tr>
 ${I}    <td class="indent empty"></td>
 ${I}    <td class="indent">
-${I}      <#if field.isArrayImplicit>implicit </#if><@compound_field_type_name field/>
+${I}      <#if field.isArrayImplicit>implicit </#if><#rt>
+            <#if field.isArrayPacked>packed </#if><@compound_field_type_name field/>
 ${I}    </td>
 ${I}    <td>
 ${I}      <@symbol_reference field.symbol/><#rt>
-- 
2.43.0


From 321b0fa1a2ffd4b3ab5273cf372c3a9e9ebfd1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:47 +0000
Subject: [PATCH 61/70] fix: Python code with comments is invalid when a
 comment contains backslashes or triple quotes

---
 .../extension/python/DocCommentsTemplateData.java    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/python/src/zserio/extension/python/DocCommentsTemplateData.java b/compiler/extensions/python/src/zserio/extension/python/DocCommentsTemplateData.java
index d6f74a7..af1c70d 100644
--- a/compiler/extensions/python/src/zserio/extension/python/DocCommentsTemplateData.java
+++ b/compiler/extensions/python/src/zserio/extension/python/DocCommentsTemplateData.java
@@ -160,7 +160,7 @@ public final class DocCommentsTemplateData
                     throws ZserioExtensionException
             {
                 final DocText docText = docLineElement.getDocText();
-                docString = (docText != null) ? docText.getText() : null;
+                docString = (docText != null) ? escapeText(docText.getText()) : null;
 
                 final DocTagSee docTagSee = docLineElement.getSeeTag();
                 seeTag = (docTagSee != null) ? new DocTagSeeData(context, docTagSee) : null;
@@ -187,7 +187,7 @@ public final class DocCommentsTemplateData
     {
         public DocTagSeeData(TemplateDataContext context, DocTagSee docTagSee) throws ZserioExtensionException
         {
-            alias = docTagSee.getLinkAlias();
+            alias = escapeText(docTagSee.getLinkAlias());
 
             final PythonNativeMapper pythonNativeMapper = context.getPythonNativeMapper();
             final SymbolReference symbolReference = docTagSee.getLinkSymbolReference();
@@ -313,5 +313,13 @@ public final class DocCommentsTemplateData
         private final DocMultilineData description;
     }
 
+    /**
+     * Escapes the text of a documentation comment which is put into a Python documentation string.
+     */
+    private static String escapeText(String text)
+    {
+        return text.replace("\\", "\\\\").replace("\"\"\"", "\\\"\\\"\\\"");
+    }
+
     private final List<DocParagraphData> docParagraphs;
 }
-- 
2.43.0


From 404f281a35e87a980280f4711d403f13e13a9f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:47 +0000
Subject: [PATCH 62/70] fix: Java code with comments is invalid when a comment
 contains a backslash followed by u

---
 .../extension/java/DocCommentsTemplateData.java      | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/src/zserio/extension/java/DocCommentsTemplateData.java b/compiler/extensions/java/src/zserio/extension/java/DocCommentsTemplateData.java
index 583516e..d5a44e7 100644
--- a/compiler/extensions/java/src/zserio/extension/java/DocCommentsTemplateData.java
+++ b/compiler/extensions/java/src/zserio/extension/java/DocCommentsTemplateData.java
@@ -162,7 +162,7 @@ public final class DocCommentsTemplateData
                     throws ZserioExtensionException
             {
                 final DocText docText = docLineElement.getDocText();
-                docString = (docText != null) ? docText.getText() : null;
+                docString = (docText != null) ? escapeText(docText.getText()) : null;
 
                 final DocTagSee docTagSee = docLineElement.getSeeTag();
                 seeTag = (docTagSee != null) ? new DocTagSeeData(context, docTagSee) : null;
@@ -189,7 +189,7 @@ public final class DocCommentsTemplateData
     {
         public DocTagSeeData(TemplateDataContext context, DocTagSee docTagSee) throws ZserioExtensionException
         {
-            alias = docTagSee.getLinkAlias();
+            alias = escapeText(docTagSee.getLinkAlias());
 
             final JavaNativeMapper javaNativeMapper = context.getJavaNativeMapper();
             final SymbolReference symbolReference = docTagSee.getLinkSymbolReference();
@@ -325,5 +325,13 @@ public final class DocCommentsTemplateData
         private final DocMultilineData description;
     }
 
+    /**
+     * Escapes the text of a documentation comment so that it cannot be taken for a Java unicode escape.
+     */
+    private static String escapeText(String text)
+    {
+        return text.replace("\\u", "&#92;u");
+    }
+
     private final List<DocParagraphData> docParagraphs;
 }
-- 
2.43.0


From 8b9724ec4b2fdbb178edac6020e408afe9f7f027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:56 +0000
Subject: [PATCH 63/70] fix: bit field lengths beyond 32 bits and negative bit
 field lengths are accepted by the compiler

---
 .../zserio/ast/DynamicBitFieldInstantiation.java    | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/compiler/core/src/zserio/ast/DynamicBitFieldInstantiation.java b/compiler/core/src/zserio/ast/DynamicBitFieldInstantiation.java
index af48233..5c009c7 100644
--- a/compiler/core/src/zserio/ast/DynamicBitFieldInstantiation.java
+++ b/compiler/core/src/zserio/ast/DynamicBitFieldInstantiation.java
@@ -125,19 +125,26 @@ public final class DynamicBitFieldInstantiation extends TypeInstantiation
             final BigInteger lengthValue = lengthExpression.getIntegerValue();
             if (lengthValue != null)
             {
-                maxBitSize = lengthValue.intValue();
-                if (maxBitSize < 1 || maxBitSize > DynamicBitFieldType.MAX_BIT_SIZE)
+                // do not convert to int before the check, it would wrap around
+                if (lengthValue.signum() <= 0 ||
+                        lengthValue.compareTo(BigInteger.valueOf(DynamicBitFieldType.MAX_BIT_SIZE)) > 0)
                 {
                     throw new ParserException(lengthExpression,
-                            "Invalid length '" + maxBitSize +
+                            "Invalid length '" + lengthValue +
                                     "' for the dynamic bit field. Length must be within range [1," +
                                     DynamicBitFieldType.MAX_BIT_SIZE + "]!");
                 }
+                maxBitSize = lengthValue.intValue();
             }
             else
             {
                 // upper bound could be unknown (=null) (for example modulo operator for negative numbers)
                 final BigInteger upperBound = lengthExpression.getIntegerUpperBound();
+                if (upperBound != null && upperBound.signum() <= 0)
+                {
+                    throw new ParserException(lengthExpression,
+                            "Invalid length for the dynamic bit field. Length is never positive!");
+                }
                 maxBitSize =
                         (upperBound == null ||
                                 upperBound.compareTo(BigInteger.valueOf(DynamicBitFieldType.MAX_BIT_SIZE)) > 0)
-- 
2.43.0


From 4c0584439b0eb09cf88cfa6c014d797d937b4fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:56 +0000
Subject: [PATCH 64/70] fix: octal literals in templates lose their digits up
 to the first zero

---
 compiler/core/src/zserio/ast/Expression.java | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compiler/core/src/zserio/ast/Expression.java b/compiler/core/src/zserio/ast/Expression.java
index 18c8a81..7f90408 100644
--- a/compiler/core/src/zserio/ast/Expression.java
+++ b/compiler/core/src/zserio/ast/Expression.java
@@ -1935,9 +1935,12 @@ public final class Expression extends AstNodeBase
 
     private static String stripOctalLiteral(String octalLiteral)
     {
-        final int prefixPos = octalLiteral.indexOf('0');
+        // all leading zeros are stripped because literals in templates are stripped again by each instantiation
+        int prefixLength = 0;
+        while (prefixLength < octalLiteral.length() - 1 && octalLiteral.charAt(prefixLength) == '0')
+            prefixLength++;
 
-        return (prefixPos == -1) ? octalLiteral : octalLiteral.substring(prefixPos + 1);
+        return octalLiteral.substring(prefixLength);
     }
 
     private static String stripHexadecimalLiteral(String hexadecimalLiteral)
-- 
2.43.0


From 3bd9e90c1e5f8c217573f25ff14929264bf935af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:07 +0000
Subject: [PATCH 65/70] fix: compiler runs into a stack overflow on indirectly
 recursive types

---
 .../core/src/zserio/ast/CompoundType.java     | 54 ++++++++++---------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/compiler/core/src/zserio/ast/CompoundType.java b/compiler/core/src/zserio/ast/CompoundType.java
index d4d3b23..7fc9556 100644
--- a/compiler/core/src/zserio/ast/CompoundType.java
+++ b/compiler/core/src/zserio/ast/CompoundType.java
@@ -1,8 +1,11 @@
 package zserio.ast;
 
 import java.math.BigInteger;
+import java.util.ArrayList;
 import java.util.Collections;
+import java.util.HashSet;
 import java.util.List;
+import java.util.Set;
 
 /**
  * AST abstract node for all Compound types.
@@ -160,7 +163,7 @@ public abstract class CompoundType extends TemplatableType
     void check()
     {
         checkDirectRecursion();
-        checkIndirectRecursion(this, this);
+        checkIndirectRecursion(this, new ArrayList<CompoundType>(), new HashSet<CompoundType>());
     }
 
     /**
@@ -227,24 +230,22 @@ public abstract class CompoundType extends TemplatableType
 
     protected boolean hasPackableField()
     {
-        for (Field field : fields)
+        // prevent cycle in direct or indirect recursion
+        if (isInPackableFieldSearch)
+            return false;
+
+        isInPackableFieldSearch = true;
+        try
         {
-            // prevent cycle in recursion
-            TypeInstantiation typeInstantiation = field.getTypeInstantiation();
-            if (typeInstantiation instanceof ArrayInstantiation)
-            {
-                typeInstantiation = ((ArrayInstantiation)typeInstantiation).getElementTypeInstantiation();
-            }
-            final ZserioType fieldBaseType = typeInstantiation.getBaseType();
-            if (fieldBaseType instanceof CompoundType)
+            for (Field field : fields)
             {
-                final CompoundType childCompoundType = (CompoundType)fieldBaseType;
-                if (childCompoundType == this)
-                    continue;
+                if (field.isPackable())
+                    return true;
             }
-
-            if (field.isPackable())
-                return true;
+        }
+        finally
+        {
+            isInPackableFieldSearch = false;
         }
 
         return false;
@@ -459,9 +460,11 @@ public abstract class CompoundType extends TemplatableType
         }
     }
 
-    private static void checkIndirectRecursion(CompoundType outer, CompoundType inner)
+    private static void checkIndirectRecursion(
+            CompoundType type, List<CompoundType> outerTypes, Set<CompoundType> checkedTypes)
     {
-        for (Field field : inner.fields)
+        outerTypes.add(type);
+        for (Field field : type.fields)
         {
             TypeInstantiation typeInstantiation = field.getTypeInstantiation();
             if (typeInstantiation instanceof ArrayInstantiation)
@@ -470,18 +473,19 @@ public abstract class CompoundType extends TemplatableType
             }
 
             final ZserioType fieldBaseType = typeInstantiation.getBaseType();
-            if (fieldBaseType instanceof CompoundType)
+            if (fieldBaseType instanceof CompoundType && fieldBaseType != type)
             {
                 final CompoundType childCompoundType = (CompoundType)fieldBaseType;
-                if (outer != inner && outer == childCompoundType)
+                if (outerTypes.contains(childCompoundType))
                     throw new ParserException(field,
-                            "Indirect recursion between '" + outer.getName() + "' and '" + inner.getName() +
-                                    "'!");
+                            "Indirect recursion between '" + childCompoundType.getName() + "' and '" +
+                                    type.getName() + "'!");
 
-                if (inner != childCompoundType)
-                    checkIndirectRecursion(outer, childCompoundType);
+                if (checkedTypes.add(childCompoundType))
+                    checkIndirectRecursion(childCompoundType, outerTypes, checkedTypes);
             }
         }
+        outerTypes.remove(outerTypes.size() - 1);
     }
 
     private final Scope scope = new Scope(this);
@@ -491,4 +495,6 @@ public abstract class CompoundType extends TemplatableType
     private final List<Field> fields;
     private final List<Parameter> typeParameters;
     private final List<Function> functions;
+
+    private boolean isInPackableFieldSearch = false;
 }
-- 
2.43.0


From 58a14f46420770e450d58847348dc531ce69e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 66/70] fix: sql table used as a type of a parameter crashes
 generators

---
 compiler/core/src/zserio/ast/CompoundType.java | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/compiler/core/src/zserio/ast/CompoundType.java b/compiler/core/src/zserio/ast/CompoundType.java
index 7fc9556..8df9f35 100644
--- a/compiler/core/src/zserio/ast/CompoundType.java
+++ b/compiler/core/src/zserio/ast/CompoundType.java
@@ -195,10 +195,17 @@ public abstract class CompoundType extends TemplatableType
     }
 
     /**
-     * Checks if no field is SQL table.
+     * Checks if no parameter and no field is SQL table.
      */
     protected void checkSqlTableFields()
     {
+        for (Parameter parameter : typeParameters)
+        {
+            if (parameter.getTypeReference().getBaseTypeReference().getType() instanceof SqlTableType)
+                throw new ParserException(
+                        parameter, "Parameter '" + parameter.getName() + "' cannot be a sql table!");
+        }
+
         for (Field field : fields)
         {
             TypeInstantiation typeInstantiation = field.getTypeInstantiation();
-- 
2.43.0


From 8d35a06bbc143d2bbe93e2ff2b0732164d780845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:25 +0000
Subject: [PATCH 67/70] fix: extern and bytes columns of sql tables are refused
 in the middle of the code generation

---
 compiler/core/src/zserio/ast/SqlTableType.java | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/compiler/core/src/zserio/ast/SqlTableType.java b/compiler/core/src/zserio/ast/SqlTableType.java
index d6f41c5..994d5f2 100644
--- a/compiler/core/src/zserio/ast/SqlTableType.java
+++ b/compiler/core/src/zserio/ast/SqlTableType.java
@@ -140,6 +140,7 @@ public final class SqlTableType extends CompoundType
 
         checkSqlSymbolNames();
         checkSqlTableFields();
+        checkFieldTypes();
 
         checkExplicitParameters();
 
@@ -160,6 +161,18 @@ public final class SqlTableType extends CompoundType
         return sqlUsingId != null;
     }
 
+    private void checkFieldTypes()
+    {
+        for (Field tableField : getFields())
+        {
+            final ZserioType fieldBaseType = tableField.getTypeInstantiation().getBaseType();
+            if (fieldBaseType instanceof ExternType || fieldBaseType instanceof BytesType)
+                throw new ParserException(tableField,
+                        "Type '" + fieldBaseType.getName() + "' of field '" + tableField.getName() +
+                                "' cannot be stored in a sql table!");
+        }
+    }
+
     private void checkExplicitParameters()
     {
         final HashMap<String, AbstractMap.SimpleEntry<String, Expression>> paramTypeMap =
-- 
2.43.0


From b97264816e706744c4548a0bbf708c3713922174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:33 +0000
Subject: [PATCH 68/70] fix: services and pubsubs used as types crash
 generators

---
 compiler/core/src/zserio/ast/TypeReference.java | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compiler/core/src/zserio/ast/TypeReference.java b/compiler/core/src/zserio/ast/TypeReference.java
index 833dfc8..2a5ce58 100644
--- a/compiler/core/src/zserio/ast/TypeReference.java
+++ b/compiler/core/src/zserio/ast/TypeReference.java
@@ -157,6 +157,12 @@ public final class TypeReference extends AstNodeBase
             throw new ParserException(
                     this, "Invalid usage of SQL database '" + symbol.getName() + "' as a type!");
         }
+        if (symbol instanceof ServiceType || symbol instanceof PubsubType)
+        {
+            throw new ParserException(this,
+                    "Invalid usage of " + (symbol instanceof ServiceType ? "service" : "pubsub") + " '" +
+                            symbol.getName() + "' as a type!");
+        }
         if (symbol instanceof TemplatableType)
         {
             final TemplatableType template = (TemplatableType)symbol;
-- 
2.43.0


From b00cd95146a4caa1e755d69ce8473d8e421f79e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:32 +0000
Subject: [PATCH 69/70] fix: documentation of templates with arguments of types
 which are not templates crashes

---
 .../doc/src/zserio/extension/doc/AstNodePackageMapper.java | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/doc/src/zserio/extension/doc/AstNodePackageMapper.java b/compiler/extensions/doc/src/zserio/extension/doc/AstNodePackageMapper.java
index 611d317..b7a3ea1 100644
--- a/compiler/extensions/doc/src/zserio/extension/doc/AstNodePackageMapper.java
+++ b/compiler/extensions/doc/src/zserio/extension/doc/AstNodePackageMapper.java
@@ -130,10 +130,11 @@ final class AstNodePackageMapper
         public void visitTypeReference(TypeReference typeReference)
         {
             final ZserioType type = typeReference.getType();
-            if (!typeReference.getTemplateArguments().isEmpty()) // we never show instantiations directly
+            // types which are not templates can have arguments in templates which are never instantiated
+            if (!typeReference.getTemplateArguments().isEmpty() &&
+                    type instanceof ZserioTemplatableType) // we never show instantiations directly
             {
-                final ZserioTemplatableType instantiationOrTemplate =
-                        (ZserioTemplatableType)typeReference.getType();
+                final ZserioTemplatableType instantiationOrTemplate = (ZserioTemplatableType)type;
                 if (instantiationOrTemplate.getTemplate() != null) // is an instantiation
                     instantiationOrTemplate.getTemplate().accept(this);
                 else // is a template instantiated within another template
-- 
2.43.0


From 324b649aa792237f0156da177ecc2094392c0a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:56 +0000
Subject: [PATCH 70/70] fix: empty comments hide everything up to the end of
 the next comment

---
 compiler/core/antlr/ZserioLexer.g4 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/core/antlr/ZserioLexer.g4 b/compiler/core/antlr/ZserioLexer.g4
index 4e52012..35cc10b 100644
--- a/compiler/core/antlr/ZserioLexer.g4
+++ b/compiler/core/antlr/ZserioLexer.g4
@@ -110,7 +110,8 @@ COMPAT_VERSION      : 'zserio_compatibility_version' ;
 WS : [\r\n\f\t ] -> skip ;
 
 // comments
-DOC_COMMENT : '/**' .*? '*/' -> channel(DOC) ;
+// empty block comment '/**/' is not documentation comment
+DOC_COMMENT : '/**' ('*'* ~[*/] (~'*' | '*'+ ~[*/])*)? '*'+ '/' -> channel(DOC) ;
 MARKDOWN_COMMENT : '/*!' .*? '!'?'*/' -> channel(DOC) ;
 BLOCK_COMMENT : '/*' .*? '*/' -> channel(HIDDEN) ;
 LINE_COMMENT : '//' ~[\r\n\f]* -> channel(HIDDEN) ;
-- 
2.43.0

