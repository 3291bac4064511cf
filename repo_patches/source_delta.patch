From 4343e255f126bb33acbe1f7dc901c22192e73aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 01/63] fix: TextCoalescer delivers pending text before
 skippedEntity and startPrefixMapping

---
 include/SAX/filter/TextCoalescer.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/SAX/filter/TextCoalescer.hpp b/include/SAX/filter/TextCoalescer.hpp
index e461c87..d3ddbce 100644
--- a/include/SAX/filter/TextCoalescer.hpp
+++ b/include/SAX/filter/TextCoalescer.hpp
@@ -64,6 +64,18 @@ public:
     XMLFilterT::processingInstruction(target, data);
   } // processingInstruction
 
+  virtual void skippedEntity(const string_type& name) 
+  { 
+    flush();
+    XMLFilterT::skippedEntity(name);
+  } // skippedEntity
+
+  virtual void startPrefixMapping(const string_type& prefix, const string_type& uri) 
+  { 
+    flush();
+    XMLFilterT::startPrefixMapping(prefix, uri);
+  } // startPrefixMapping
+
   virtual void startCDATA() 
   { 
     flush();
-- 
2.43.0


From 413b836568047d97767c0c47e267ba7857129168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 02/63] fix: AttrNS setPrefix refuses to change a read-only
 attribute

---
 include/DOM/Simple/AttrNSImpl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/DOM/Simple/AttrNSImpl.hpp b/include/DOM/Simple/AttrNSImpl.hpp
index a885ec8..06b92d8 100644
--- a/include/DOM/Simple/AttrNSImpl.hpp
+++ b/include/DOM/Simple/AttrNSImpl.hpp
@@ -77,6 +77,8 @@ class AttrNSImpl : public AttrImpl<stringT, string_adaptorT>
     
     virtual void setPrefix(const stringT& prefix) 
     {
+      AttrImplT::throwIfReadOnly();
+
       if(hasNamespaceURI_ == false) 
         throw DOM::DOMException(DOM::DOMException::NAMESPACE_ERR);
 
-- 
2.43.0


From 182d00557256a74b83b798c82358a57099ee4b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:31 +0000
Subject: [PATCH 03/63] fix: a document type or document cannot be slipped past
 the child type check

---
 include/DOM/Simple/NodeImpl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index e9a8586..43a5819 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -519,6 +519,7 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       DocumentImplT* childDoc = child->getOwnerDoc();
       if(childDoc == 0)
       {
+        checkChildType(child);
         child->setOwnerDoc(NodeImplT::getOwnerDoc());
         return;
       } //
@@ -527,7 +528,7 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       {
         if(childDoc != dynamic_cast<DocumentImplT*>(this))
           throw DOM::DOMException(DOM::DOMException::WRONG_DOCUMENT_ERR);
-        return;
+        throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
       } // if(parent is a Document)
 
       if(NodeImplT::getOwnerDocument() && childDoc != NodeImplT::getOwnerDocument())
-- 
2.43.0


From 2d79c6701cda4bad1c0aad610e07042b168dcf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:31 +0000
Subject: [PATCH 04/63] fix: insertBefore and replaceChild fail before they
 detach the new child

---
 include/DOM/Simple/NodeImpl.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/DOM/Simple/NodeImpl.hpp b/include/DOM/Simple/NodeImpl.hpp
index 43a5819..6cb8f61 100644
--- a/include/DOM/Simple/NodeImpl.hpp
+++ b/include/DOM/Simple/NodeImpl.hpp
@@ -398,6 +398,10 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       } // if ...
 
       checkCanAdd(newChild);
+      if(refChild)
+        findChild(refChild);  // throws if it isn't ours
+      if(refChild == newChild)
+        refChild = newChild->getNext();
       removeIfRequired(newChild);
       if(refChild)
       {
@@ -441,6 +445,9 @@ class NodeImplWithChildren : public NodeImpl<stringT, string_adaptorT>,
       } // if ...
 
       checkCanAdd(newChild);
+      findChild(oldChild);  // throws if it isn't ours
+      if(newChild == oldChild)
+        return oldChild;
       removeIfRequired(newChild);
       typename std::deque<NodeImplT*>::iterator result = findChild(oldChild);
       *result = newChild;
-- 
2.43.0


From e53a489338cca7edb3bf9ef040c2b93cb862e4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:31 +0000
Subject: [PATCH 05/63] fix: Document replaceChild keeps the document element
 and type in step

---
 include/DOM/Simple/DocumentImpl.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index d83761e..82709df 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -413,7 +413,8 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
     {
       checkChildType(newChild);
 
-      if((newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE) && (documentType_ == oldChild))
+      if((documentType_ != 0) &&
+         ((documentType_ == oldChild) || (newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE)))
         throw DOM::DOMException(DOM::DOMException::HIERARCHY_REQUEST_ERR);
       if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) &&
          (documentElement_ != 0) &&
@@ -422,9 +423,12 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
 
       DOMNode_implT* result = NodeWithChildrenT::replaceChild(newChild, oldChild);
 
-      if((newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE) &&
-         ((documentElement_ == 0) || (documentElement_ == oldChild)))
+      if(documentElement_ == oldChild)
+        documentElement_ = static_cast<DOMElement_implT*>(0);
+      if(newChild->getNodeType() == DOM::Node_base::ELEMENT_NODE)
         documentElement_ = dynamic_cast<DOMElement_implT*>(newChild);
+      if(newChild->getNodeType() == DOM::Node_base::DOCUMENT_TYPE_NODE)
+        documentType_ = dynamic_cast<DOMDocumentType_implT*>(newChild);
 
       return result;
     } // replaceChild
-- 
2.43.0


From 01709fea3b522c2ea1406845633e98d0770d6b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 06/63] fix: ElementByTagList item looks at the current tree
 before it checks the index

---
 include/DOM/Simple/ElementByTagImpl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/DOM/Simple/ElementByTagImpl.hpp b/include/DOM/Simple/ElementByTagImpl.hpp
index 2607619..79c5e65 100644
--- a/include/DOM/Simple/ElementByTagImpl.hpp
+++ b/include/DOM/Simple/ElementByTagImpl.hpp
@@ -74,12 +74,12 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
     // DOM::NodeList methods
     virtual DOM::Node_impl<stringT, string_adaptorT>* item(unsigned int index) const
     {
-      if(index >= nodes_.size())
-        return 0;
-
       if(changes_ != ownerDoc_->changes())
         populate();
 
+      if(index >= nodes_.size())
+        return 0;
+
       return nodes_[index];
     } // item
 
-- 
2.43.0


From 042f76288f5e6473b32c266ba2983f4a64862f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 07/63] fix: splitText works on a node without a parent and
 keeps the new node owned

---
 include/DOM/Simple/CDATASectionImpl.hpp | 5 ++++-
 include/DOM/Simple/TextImpl.hpp         | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/DOM/Simple/CDATASectionImpl.hpp b/include/DOM/Simple/CDATASectionImpl.hpp
index 2dbdda5..01c306a 100644
--- a/include/DOM/Simple/CDATASectionImpl.hpp
+++ b/include/DOM/Simple/CDATASectionImpl.hpp
@@ -35,7 +35,10 @@ class CDATASectionImpl : public DOM::CDATASection_impl<stringT, string_adaptorT>
       CharacterDataImplT::deleteData(offset, CharacterDataImplT::getLength() - offset);
 
       CDATASectionImpl* splitNode = new CDATASectionImpl(CharacterDataImplT::getOwnerDoc(), second);
-      CharacterDataImplT::getParentNode()->insertBefore(splitNode, CharacterDataImplT::getNextSibling());
+      if(CharacterDataImplT::getParentNode())
+        CharacterDataImplT::getParentNode()->insertBefore(splitNode, CharacterDataImplT::getNextSibling());
+      else
+        CharacterDataImplT::getOwnerDoc()->orphaned(splitNode);
       return splitNode;
     } // splitText
 
diff --git a/include/DOM/Simple/TextImpl.hpp b/include/DOM/Simple/TextImpl.hpp
index b0f95f7..5b66148 100644
--- a/include/DOM/Simple/TextImpl.hpp
+++ b/include/DOM/Simple/TextImpl.hpp
@@ -39,6 +39,8 @@ class TextImpl : public DOM::Text_impl<stringT, string_adaptorT>,
       DOMNode_implT *parent = CharacterDataT::getParentNode();
       if(parent)
         parent->insertBefore(splitNode, CharacterDataT::getNextSibling());
+      else
+        CharacterDataT::getOwnerDoc()->orphaned(splitNode);
       return splitNode;
     } // splitText
 
-- 
2.43.0


From 73d3bac60aa748283226b6d141ef3c96f914065f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 08/63] fix: an attribute from another document is refused
 before it is claimed

---
 include/DOM/Simple/AttrMap.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 0462926..4afec72 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -41,6 +41,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       if(alreadyHere(attr))
         return attr;
       NamedNodeMapImplT::throwIfReadOnly();
+      NamedNodeMapImplT::checkOwnerDocument(attr);
       checkNotInUse(attr);
       attr->setOwnerElement(ownerElement_);
       return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItem(attr));
@@ -136,6 +137,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       if(alreadyHere(attr))
         return attr;
       NamedNodeMapImplT::throwIfReadOnly();
+      NamedNodeMapImplT::checkOwnerDocument(attr);
       checkNotInUse(attr);
       attr->setOwnerElement(ownerElement_);
       return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItemNS(newAttr));
-- 
2.43.0


From a53b07c98a6879dcbf81202d24933bcdea10c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 09/63] fix: setAttribute on a read-only map fails before it
 makes an attribute

---
 include/DOM/Simple/AttrMap.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 4afec72..6019ab2 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -71,6 +71,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     void setAttribute(const stringT& name, const stringT& value)    
     {
+      NamedNodeMapImplT::throwIfReadOnly();
       AttrImplT* a = new AttrImplT(NamedNodeMapImplT::ownerDoc_, name, value);
       a->setOwnerElement(ownerElement_);
       NamedNodeMapImplT::setNamedItem(a);
@@ -107,6 +108,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
 
     void setAttributeNS(const stringT& namespaceURI, const stringT& qualifiedName, const stringT& value)    
     {
+      NamedNodeMapImplT::throwIfReadOnly();
       AttrNSImplT* a = new AttrNSImplT(NamedNodeMapImplT::ownerDoc_, 
                                        namespaceURI, 
                                        !string_adaptorT::empty(namespaceURI), 
-- 
2.43.0


From 9ca552cc707cfa43e14045a65c09a68cb7e6b99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 10/63] fix: an attribute that leaves its element no longer
 names it as owner

---
 include/DOM/Simple/AttrImpl.hpp |  6 ++++++
 include/DOM/Simple/AttrMap.hpp  | 21 +++++++++++++++------
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index f032206..9029c84 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -148,6 +148,12 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
     void setOwnerElement(ElementImplT* element)
     {
       ownerElement_ = element;
+      if(!element)
+      {
+        if(NodeT::ownerDoc_)
+          NodeT::ownerDoc_->removeElementId(this);
+        return;
+      } // if no longer owned
       if(NodeT::ownerDoc_)
       {
         NodeT::ownerDoc_->adopted(this);  // don't have a parent but are owned
diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index 6019ab2..c846966 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -44,19 +44,19 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       NamedNodeMapImplT::checkOwnerDocument(attr);
       checkNotInUse(attr);
       attr->setOwnerElement(ownerElement_);
-      return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItem(attr));
+      return disown(NamedNodeMapImplT::setNamedItem(attr));
     } // setNamedItem
 
     virtual DOMNode_implT* removeNamedItem(const stringT& name)
     {
-      DOMNode_implT* n = NamedNodeMapImplT::removeNamedItem(name);
+      DOMNode_implT* n = disown(NamedNodeMapImplT::removeNamedItem(name));
       createDefault(name);
       return n;
     } // removeNamedItem
 
     virtual DOMNode_implT* removeNamedItemNS(const stringT& namespaceURI, const stringT& localName)
     {
-      DOMNode_implT* n = NamedNodeMapImplT::removeNamedItemNS(namespaceURI, localName);
+      DOMNode_implT* n = disown(NamedNodeMapImplT::removeNamedItemNS(namespaceURI, localName));
       createDefault(namespaceURI, localName);
       return n;
     } // removedNamedItemNS   
@@ -74,7 +74,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       NamedNodeMapImplT::throwIfReadOnly();
       AttrImplT* a = new AttrImplT(NamedNodeMapImplT::ownerDoc_, name, value);
       a->setOwnerElement(ownerElement_);
-      NamedNodeMapImplT::setNamedItem(a);
+      disown(NamedNodeMapImplT::setNamedItem(a));
     } // setAttribute
 
     void removeAttribute(const stringT& name)    
@@ -115,7 +115,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
                                        qualifiedName);
       a->setValue(value);
       a->setOwnerElement(ownerElement_);
-      NamedNodeMapImplT::setNamedItemNS(a);
+      disown(NamedNodeMapImplT::setNamedItemNS(a));
     } // setAttributeNS
 
     void removeAttributeNS(const stringT& namespaceURI, const stringT& localName)    
@@ -142,7 +142,7 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
       NamedNodeMapImplT::checkOwnerDocument(attr);
       checkNotInUse(attr);
       attr->setOwnerElement(ownerElement_);
-      return dynamic_cast<DOMAttr_implT*>(NamedNodeMapImplT::setNamedItemNS(newAttr));
+      return disown(NamedNodeMapImplT::setNamedItemNS(newAttr));
     } // setNamedItem
 
     bool hasAttribute(const stringT& name) const    
@@ -168,6 +168,15 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     } // setOwnerDoc
 
   private:
+    // an attribute that has left the map no longer belongs to the element
+    DOMAttr_implT* disown(DOMNode_implT* oldAttr)
+    {
+      AttrImplT* attr = dynamic_cast<AttrImplT*>(oldAttr);
+      if(attr)
+        attr->setOwnerElement(0);
+      return attr;
+    } // disown
+
     void createDefault(const stringT& name) 
     {
       DOMNamedNodeMap_implT* attrs = getDefaultAttrs();
-- 
2.43.0


From 3e7e1bcc3f48a7b68995c5d576c987781a70e487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 11/63] fix: renaming an element by setPrefix invalidates live
 lists

---
 include/DOM/Simple/ElementNSImpl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/DOM/Simple/ElementNSImpl.hpp b/include/DOM/Simple/ElementNSImpl.hpp
index 9bc88ff..f5bbd8c 100644
--- a/include/DOM/Simple/ElementNSImpl.hpp
+++ b/include/DOM/Simple/ElementNSImpl.hpp
@@ -78,6 +78,7 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
       {
         ElementImplT::tagName_ = localName_;
         prefix_ = &ElementImplT::ownerDoc_->empty_string();
+        ElementImplT::ownerDoc_->markChanged();
         return;
       } // empty prefix
 
@@ -89,6 +90,7 @@ class ElementNSImpl : public ElementImpl<stringT, string_adaptorT>
 
       prefix_ = ElementImplT::ownerDoc_->stringPool(prefix);
       ElementImplT::tagName_ = ElementImplT::ownerDoc_->stringPool(newTagName);
+      ElementImplT::ownerDoc_->markChanged();
     } // setPrefix
 
     virtual const stringT& getLocalName() const 
-- 
2.43.0


From d36ddfffb3e79f097a87817a7644859c7c8088dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:26 +0000
Subject: [PATCH 12/63] fix: removeAttributeNode removes the attribute it was
 given, not one of the same name

---
 include/DOM/Simple/AttrMap.hpp          | 6 +++++-
 include/DOM/Simple/NamedNodeMapImpl.hpp | 6 ++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/DOM/Simple/AttrMap.hpp b/include/DOM/Simple/AttrMap.hpp
index c846966..ee57d14 100644
--- a/include/DOM/Simple/AttrMap.hpp
+++ b/include/DOM/Simple/AttrMap.hpp
@@ -96,7 +96,11 @@ class AttrMap : public NamedNodeMapImpl<stringT, string_adaptorT>
     {
       if(oldAttr->getOwnerElement() != ownerElement_)
         throw DOM::DOMException(DOM::DOMException::NOT_FOUND_ERR);
-      removeNamedItem(oldAttr->getNodeName());
+      disown(NamedNodeMapImplT::removeItem(dynamic_cast<AttrImplT*>(oldAttr)));
+      if(string_adaptorT::empty(oldAttr->getLocalName()))
+        createDefault(oldAttr->getNodeName());
+      else
+        createDefault(oldAttr->getNamespaceURI(), oldAttr->getLocalName());
       return oldAttr;
     } // removeAttributeNode
 
diff --git a/include/DOM/Simple/NamedNodeMapImpl.hpp b/include/DOM/Simple/NamedNodeMapImpl.hpp
index 6d60dc7..c5d2245 100644
--- a/include/DOM/Simple/NamedNodeMapImpl.hpp
+++ b/include/DOM/Simple/NamedNodeMapImpl.hpp
@@ -163,6 +163,12 @@ class NamedNodeMapImpl : public DOM::NamedNodeMap_impl<stringT, string_adaptorT>
     } // item
 
   protected:
+    NodeImplT* removeItem(NodeImplT* node)
+    {
+      throwIfReadOnly();
+      return removeNode(std::find(nodes_.begin(), nodes_.end(), node));
+    } // removeItem
+
     void throwIfReadOnly() const
     {
       if(readOnly_)
-- 
2.43.0


From e8ba34366b7f6bd9aad5f4685f5b65a83870f8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:56 +0000
Subject: [PATCH 13/63] fix: XMLBaseTracker knows the document's location
 before it resolves xml:base

---
 include/SAX/filter/XMLBaseTracker.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/SAX/filter/XMLBaseTracker.hpp b/include/SAX/filter/XMLBaseTracker.hpp
index 6a3b170..2535237 100644
--- a/include/SAX/filter/XMLBaseTracker.hpp
+++ b/include/SAX/filter/XMLBaseTracker.hpp
@@ -52,6 +52,8 @@ public:
   virtual void startElement(const string_type& namespaceURI, const string_type& localName,
                             const string_type& qName, const AttributesT& atts)
   {
+    if(!base_set_ && locator_)
+      setDocLoc(locator_->getSystemId());
     xmlbase_.startElement(atts);
     XMLFilterT::startElement(namespaceURI, localName, qName, atts);
   } // startElement
-- 
2.43.0


From 968868bc368d7d38481dc0855972c62a0ca8e3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:56 +0000
Subject: [PATCH 14/63] fix: AttributesImpl assignment from another list
 returns a value

---
 include/SAX/helpers/AttributesImpl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/SAX/helpers/AttributesImpl.hpp b/include/SAX/helpers/AttributesImpl.hpp
index 12ae708..6562d97 100644
--- a/include/SAX/helpers/AttributesImpl.hpp
+++ b/include/SAX/helpers/AttributesImpl.hpp
@@ -93,6 +93,7 @@ public:
   AttributesImpl& operator=(const AttributesT& rhs) 
   {
     setAttributes(rhs);
+    return *this;
   } // operator=
 
   bool operator==(const AttributesImpl& rhs) const
-- 
2.43.0


From f84e6acc80421d37a4bd894d9c995f5f9763b378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:03 +0000
Subject: [PATCH 15/63] fix: the value of an attribute follows changes to its
 text nodes

AttrImpl kept the value it had computed until its own list of children
changed, so a change to the data of a child text node was not seen.
---
 include/DOM/Simple/AttrImpl.hpp | 45 +++------------------------------
 1 file changed, 4 insertions(+), 41 deletions(-)

diff --git a/include/DOM/Simple/AttrImpl.hpp b/include/DOM/Simple/AttrImpl.hpp
index 9029c84..445bd59 100644
--- a/include/DOM/Simple/AttrImpl.hpp
+++ b/include/DOM/Simple/AttrImpl.hpp
@@ -29,8 +29,7 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
         NodeImplWithChildren<stringT, string_adaptorT>(ownerDoc),
         name_(ownerDoc->stringPool(name)),
         ownerElement_(0),
-        specified_(true),
-        valueCalculated_(false)
+        specified_(true)
     {
     } // AttrImpl
 
@@ -39,8 +38,7 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
         NodeImplWithChildren<stringT, string_adaptorT>(ownerDoc),
         name_(ownerDoc->stringPool(name)),
         ownerElement_(0),
-        specified_(true),
-        valueCalculated_(false)
+        specified_(true)
     {
       setNodeValue(value);
     } // AttrImpl
@@ -75,36 +73,6 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
     virtual DOMNode_implT* getPreviousSibling() const { return 0; }
     virtual DOMNode_implT* getNextSibling() const { return 0; }
 
-    virtual DOMNode_implT* insertBefore(DOMNode_implT* newChild, DOMNode_implT* refChild)
-    {
-      valueCalculated_ = false;
-      return NodeT::insertBefore(newChild, refChild);
-    } // insertBefore
-
-    virtual DOMNode_implT* replaceChild(DOMNode_implT* newChild, DOMNode_implT* oldChild)
-    { 
-      valueCalculated_ = false;
-      return NodeT::replaceChild(newChild, oldChild);
-    } // replaceChild
-
-    virtual DOMNode_implT* removeChild(DOMNode_implT* oldChild)
-    {
-      valueCalculated_ = false;
-      return NodeT::removeChild(oldChild);
-    } // removeChild
-
-    virtual DOMNode_implT* appendChild(DOMNode_implT* newChild)
-    {
-      valueCalculated_ = false;
-      return NodeT::appendChild(newChild);
-    } // appendChild
-
-    virtual void purgeChild(DOMNode_implT* oldChild)
-    {
-      valueCalculated_ = false;
-      NodeT::purgeChild(oldChild);
-    } // purgeChild
-
     virtual DOMNode_implT* cloneNode(bool /*deep*/) const
     {
       AttrImpl* a = dynamic_cast<AttrImpl*>(NodeT::ownerDoc_->createAttribute(*name_));
@@ -120,11 +88,8 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
 
     virtual const stringT& getNodeValue() const
     {
-      if(!valueCalculated_)
-      {
-        value_ = concatNodes(NodeT::getFirstChild());
-        valueCalculated_ = true;
-      }
+      // the text of a child can change without the child's being replaced
+      value_ = concatNodes(NodeT::getFirstChild());
       return value_;
     } // getNodeValue
 
@@ -139,7 +104,6 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
       // add a new text node
       NodeT::appendChild(NodeT::ownerDoc_->createTextNode(data));
 
-      valueCalculated_ = false;
       specified_ = true;
     } // setNodeValue
 
@@ -207,7 +171,6 @@ class AttrImpl : public DOM::Attr_impl<stringT, string_adaptorT>,
     stringT const* name_;
     ElementImplT* ownerElement_;
     bool specified_;
-    mutable bool valueCalculated_;
     mutable stringT value_;
 }; // class AttrImpl
 
-- 
2.43.0


From 34bbb19b386834b945a953b8ae5e3dc642e1ce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:56 +0000
Subject: [PATCH 16/63] fix: purging an element forgets its ID attributes

The set of ID attributes kept pointing to attributes deleted with a purged
element, so getElementById read freed memory.
---
 include/DOM/Simple/DocumentImpl.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/DOM/Simple/DocumentImpl.hpp b/include/DOM/Simple/DocumentImpl.hpp
index 82709df..e3fe8cb 100644
--- a/include/DOM/Simple/DocumentImpl.hpp
+++ b/include/DOM/Simple/DocumentImpl.hpp
@@ -486,6 +486,7 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
     void purge(NodeImplT* node)
     {
       orphans_.erase(node);
+      forgetElementIds(node);
       delete node;
     } // purge
 
@@ -516,6 +517,16 @@ class DocumentImpl : public DOM::Document_impl<stringT, string_adaptorT>,
     const stringT& empty_string() const { return empty_; }
 
   private:
+    void forgetElementIds(DOMNode_implT* node)
+    {
+      DOM::NamedNodeMap_impl<stringT, string_adaptorT>* attrs = node->getAttributes();
+      if(attrs)
+        for(unsigned int i = 0; i < attrs->getLength(); ++i)
+          removeElementId(dynamic_cast<AttrImplT*>(attrs->item(i)));
+      for(DOMNode_implT* child = node->getFirstChild(); child != 0; child = child->getNextSibling())
+        forgetElementIds(child);
+    } // forgetElementIds
+
     void checkChildType(DOMNode_implT* child)
     {
       typename DOM::Node_base::Type type = child->getNodeType();
-- 
2.43.0


From 1da805fc056c2787cbbf7fa24bb29a70283bb3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:20 +0000
Subject: [PATCH 17/63] fix: an attribute has no nodes on its XPath child axis

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index a654f47..6663a7f 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -324,7 +324,7 @@ public:
 
   ChildAxisWalker(const RawNodeT context) : AxisWalker<string_type, string_adaptor>(true)
   {
-    if(context != 0)
+    if((context != 0) && (context->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE))
       BaseT::set(context->getFirstChild());
   } // ChildAxisWalker
 
-- 
2.43.0


From c812a5c7f32c2f11c1e32cfa8dbfd2c1662f290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:20 +0000
Subject: [PATCH 18/63] fix: the preceding axis lists a text node once when it
 is stored in parts

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index 6663a7f..de339f0 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -630,8 +630,8 @@ private:
       return context;
 
     RawNodeT c = context->getFirstChild();
-    while(c->getNextSibling() != 0)
-      c = c->getNextSibling();
+    for(RawNodeT next = BaseT::findNextSibling(c); next != 0; next = BaseT::findNextSibling(c))
+      c = next;
 
     return getLastDescendant(c);
   } // getLastDescendant
-- 
2.43.0


From c5ab4d765f96fb578d7e8ec12ed4e97375aad513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:20 +0000
Subject: [PATCH 19/63] fix: the following axis ends at the top of a tree
 without a document

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index de339f0..6f91eaa 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -148,7 +148,7 @@ protected:
       return next;
             
     RawNodeT parent = context->getParentNode();
-    while(parent != origin && next == 0)
+    while(parent != 0 && parent != origin && next == 0)
     {
       next = parent->getNextSibling();
       parent = parent->getParentNode();
@@ -447,7 +447,7 @@ private:
       return next;
           
     RawNodeT parent = context->getParentNode();
-    while(parent != context->getOwnerDocument() && next == 0)
+    while(parent != 0 && parent != context->getOwnerDocument() && next == 0)
     {
       next = parent->getNextSibling();
       parent = parent->getParentNode();
-- 
2.43.0


From 77f828b02ee5b0f60e92cdb8d8dce229ac846ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:21 +0000
Subject: [PATCH 20/63] fix: the namespace axis lists the namespaces in scope,
 and can be copied

---
 include/XPath/impl/xpath_axis_enumerator.hpp | 36 +++++++++++++++-----
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/XPath/impl/xpath_axis_enumerator.hpp b/include/XPath/impl/xpath_axis_enumerator.hpp
index 6f91eaa..d2cb7eb 100644
--- a/include/XPath/impl/xpath_axis_enumerator.hpp
+++ b/include/XPath/impl/xpath_axis_enumerator.hpp
@@ -1,6 +1,8 @@
 #ifndef ARABICA_XPATHIC_XPATH_AXIS_ENUMERATOR_H
 #define ARABICA_XPATHIC_XPATH_AXIS_ENUMERATOR_H
 
+#include <algorithm>
+#include <vector>
 #include <DOM/Node.hpp>
 #include <DOM/Document.hpp>
 #include <DOM/NamedNodeMap.hpp>
@@ -497,19 +499,21 @@ public:
     index_(0)
   {
     RawNodeT current = context;
-    if(current->getNodeType() != DOM::Node_base::ATTRIBUTE_NODE)
-      push_back(context, 
-                string_adaptor::construct_from_utf8("xml"), 
-                string_adaptor::construct_from_utf8("http://www.w3.org/XML/1998/namespace"));
-    while(current->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+    std::vector<string_type> declared;  // innermost declaration of a prefix wins
+    if(current->getNodeType() == DOM::Node_base::ELEMENT_NODE)
+      declare(context, 
+              string_adaptor::construct_from_utf8("xml"), 
+              string_adaptor::construct_from_utf8("http://www.w3.org/XML/1998/namespace"),
+              declared);
+    while(current != 0 && current->getNodeType() == DOM::Node_base::ELEMENT_NODE)
     {
       for(unsigned int a = 0, ae = current->getAttributes()->getLength(); a != ae; ++a)
       {
         RawNodeT attr = current->getAttributes()->item(a);
         if(attr->getPrefix() == xmlns_prefix_)
-          push_back(context, attr->getLocalName(), attr->getNodeValue());
+          declare(context, attr->getLocalName(), attr->getNodeValue(), declared);
         if(attr->getNodeName() == xmlns_prefix_)
-          push_back(context, string_adaptor::empty_string(), attr->getNodeValue());
+          declare(context, string_adaptor::empty_string(), attr->getNodeValue(), declared);
       } // for ...
       current = current->getParentNode();
     } // while
@@ -532,6 +536,15 @@ public:
   virtual BaseT* clone() const { return new NamespaceAxisWalker(*this); }
 
 private:
+  void declare(RawNodeT context, const string_type& prefix, const string_type& uri, std::vector<string_type>& declared)
+  {
+    if(std::find(declared.begin(), declared.end(), prefix) != declared.end())
+      return;
+    declared.push_back(prefix);
+    if(!string_adaptor::empty(uri)) // otherwise the namespace is undeclared
+      push_back(context, prefix, uri);
+  } // declare
+
   void push_back(RawNodeT context, const string_type& prefix, const string_type& uri)
   {
     RawNodeT node = new NamespaceNodeImpl<string_type, string_adaptor>(context, prefix, uri);
@@ -539,7 +552,14 @@ private:
     list_.push_back(node);
   } // push_back
 
-  NamespaceAxisWalker(const NamespaceAxisWalker& rhs) : BaseT(rhs) { }
+  NamespaceAxisWalker(const NamespaceAxisWalker& rhs) : BaseT(rhs),
+    list_(rhs.list_),
+    xmlns_prefix_(rhs.xmlns_prefix_),
+    index_(rhs.index_)
+  {
+    for(int i = 0; list_[i] != 0; ++i)
+      list_[i]->addRef();
+  } // NamespaceAxisWalker
   std::vector<RawNodeT> list_;
   const string_type xmlns_prefix_;
   unsigned int index_;
-- 
2.43.0


From 2d54dce1376918efb26fcaa5d0871cb7bb4c5823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:48 +0000
Subject: [PATCH 21/63] fix: expat reports parameter entities with a leading %

---
 include/SAX/wrappers/saxexpat.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index a795550..caafaab 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -866,7 +866,7 @@ void expat_wrapper<string_type, T0, T1>::attListDeclaration(const XML_Char* elna
 
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::entityDeclaration(const XML_Char* entityName,
-                           int /*is_parameter_entity*/,
+                           int is_parameter_entity,
                            const XML_Char* value,
                            int value_length,
                            const XML_Char* /*base*/,
@@ -885,7 +885,13 @@ void expat_wrapper<string_type, T0, T1>::entityDeclaration(const XML_Char* entit
    provided. The notationName argument will have a non-null value only
    for unparsed entity declarations. */
 
-  const string_type s_entityName(SA::construct_from_utf8(entityName));
+  string_type s_entityName(SA::construct_from_utf8(entityName));
+  if(is_parameter_entity)
+  {
+    string_type s_parameterName = SA::construct_from_utf8("%");
+    SA::append(s_parameterName, s_entityName);
+    s_entityName = s_parameterName;
+  } // if ...
   if(!systemId && !publicId && !notationName)
   {
     // internal entity!
-- 
2.43.0


From a440e703c1f502fea290445230cab6cccc460e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:48 +0000
Subject: [PATCH 22/63] fix: comments and processing instructions in the DTD
 are not children of the document

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 19152c9..5263a19 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -248,7 +248,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void processingInstruction(const stringT& target, const stringT& data)
     {
-      if(currentNode_ == 0)
+      if(currentNode_ == 0 || inDTD_ == true)
         return;
 
       currentNode_.appendChild(document_.createProcessingInstruction(target, data));
@@ -347,7 +347,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void comment(const stringT& text)
     {
-      if(currentNode_ == 0)
+      if(currentNode_ == 0 || inDTD_ == true)
         return;
 
       currentNode_.appendChild(document_.createComment(text));
-- 
2.43.0


From 7d9c26aea27d03caa846935afda04033af784c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:48 +0000
Subject: [PATCH 23/63] fix: notations and unparsed entities reach the document
 type

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 5263a19..483132a 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -107,6 +107,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       TextCoalescerT parser(base_parser);
       parser.setContentHandler(*this);
       parser.setErrorHandler(*this);
+      parser.setDTDHandler(*this);
       if(entityResolver_)
         parser.setEntityResolver(*entityResolver_);
 
-- 
2.43.0


From b0431629f78b3e5c2476b00605703a694bb767f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:48 +0000
Subject: [PATCH 24/63] fix: a parameter entity is neither an entity of the
 document type nor document content

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 483132a..c4c923d 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -183,6 +183,12 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
         catch(const Arabica::SAX::SAXException&) { }
     } // setParserFeatures
 
+    // the DOM has nothing to say about parameter entities
+    static bool isParameterEntity(const stringT& name)
+    {
+      return string_adaptorT::find(name, string_adaptorT::construct_from_utf8("%")) == 0;
+    } // isParameterEntity
+
     ///////////////////////////////////////////////////////////
     // ContentHandler
     virtual void endDocument()
@@ -321,7 +327,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       if(--inEntity_ == 0)
         currentNode_ = cachedCurrent_;
 
-      if(this->dtd_pseudo_entity == name)
+      if(inDTD_ == true || this->dtd_pseudo_entity == name)
         return;
 	  
 	  const EntityT* declared = declaredEntities_[name];
@@ -379,7 +385,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void internalEntityDecl(const stringT& name, const stringT& value)
     {
-      if(!documentType_)
+      if(!documentType_ || isParameterEntity(name))
         return;
 
       static const stringT LEFT_ANGLE_BRACKET = string_adaptorT::construct_from_utf8("<");
@@ -424,7 +430,7 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void externalEntityDecl(const stringT& name, const stringT& publicId, const stringT& systemId)
     {
-      if(!documentType_)
+      if(!documentType_ || isParameterEntity(name))
         return;
       EntityT* entity = new EntityT(0, name, publicId, systemId, string_adaptorT::construct_from_utf8(""));
       declaredEntities_.insert(std::make_pair(name, entity)); // we'll populate it later
-- 
2.43.0


From 2ff515ec769888fc4e552472b5d5631ff1d0c77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:48 +0000
Subject: [PATCH 25/63] fix: an entity value which cannot be parsed on its own
 does not bring the builder down

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index c4c923d..82935da 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -415,6 +415,8 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       parser.parse(is);       
 
       DOM::Document<stringT, string_adaptorT> entityDoc = parser.getDocument();
+      if(entityDoc == 0)  // not parseable on its own, perhaps because it refers to other entities
+        return;
       DOM::Element<stringT, string_adaptorT> entityElem = entityDoc.getDocumentElement();
       DOM::Node<stringT, string_adaptorT> child = entityElem.getFirstChild();
       while(child != 0)
-- 
2.43.0


From 3f993ee2eb102bc3c9ab6cb50be3729491e8a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:48 +0000
Subject: [PATCH 26/63] fix: nested entities in parsed content are not repeated
 or misplaced

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 82935da..4b3b022 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -310,9 +310,6 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void startEntity(const stringT& name)
     {
-      if(currentNode_ == 0)
-        return;
-
       if(++inEntity_ == 1)
       {
         cachedCurrent_ = currentNode_;
@@ -324,8 +321,12 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void endEntity(const stringT& name)
     {
-      if(--inEntity_ == 0)
-        currentNode_ = cachedCurrent_;
+      if(--inEntity_ != 0)  // content of a nested entity is part of the outer entity
+        return;
+
+      currentNode_ = cachedCurrent_;
+      if(currentNode_ == 0)
+        return;
 
       if(inDTD_ == true || this->dtd_pseudo_entity == name)
         return;
-- 
2.43.0


From 31b1f6e11899029d884bd8fdf5c218a8731b490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:05 +0000
Subject: [PATCH 27/63] fix: declarations of an earlier parse are forgotten,
 events after an error are ignored

---
 include/DOM/SAX2DOM/SAX2DOM.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/DOM/SAX2DOM/SAX2DOM.hpp b/include/DOM/SAX2DOM/SAX2DOM.hpp
index 4b3b022..76b8033 100644
--- a/include/DOM/SAX2DOM/SAX2DOM.hpp
+++ b/include/DOM/SAX2DOM/SAX2DOM.hpp
@@ -99,6 +99,9 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
       DOM::DOMImplementation<stringT, string_adaptorT> di = Arabica::SimpleDOM::DOMImplementation<stringT, string_adaptorT>::getDOMImplementation();
       document_ = di.createDocument(string_adaptorT::construct_from_utf8(""), string_adaptorT::construct_from_utf8(""), 0);
       currentNode_ = document_;
+      cachedCurrent_ = 0;
+      documentType_ = 0;
+      declaredEntities_.clear();
       inCDATA_ = false;
       inDTD_ = false;
       inEntity_ = 0;
@@ -142,6 +145,9 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
     void reset()
     {
       currentNode_ = 0;
+      cachedCurrent_ = 0;
+      documentType_ = 0;
+      declaredEntities_.clear();
       document_ = 0;
     } // reset
 
@@ -297,6 +303,9 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 			  const stringT& publicId, 
 			  const stringT& systemId)
     {
+      if(currentNode_ == 0)
+        return;
+
       documentType_ = new DocumentType<stringT, string_adaptorT >(name, publicId, systemId);
       document_.insertBefore(documentType_, 0);
       inDTD_ = true;
@@ -304,8 +313,9 @@ class Parser : protected Arabica::SAX::DefaultHandler<stringT, typename ParserTy
 
     virtual void endDTD()
     {
-      documentType_->setReadOnly(true);
       inDTD_ = false;
+      if(documentType_)
+        documentType_->setReadOnly(true);
     } // endDTD
 
     virtual void startEntity(const stringT& name)
-- 
2.43.0


From 05183d3519128a3fe3751b000b08feb6c658d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:26 +0000
Subject: [PATCH 28/63] fix: element lists include the elements within entity
 references

---
 include/DOM/Simple/ElementByTagImpl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/DOM/Simple/ElementByTagImpl.hpp b/include/DOM/Simple/ElementByTagImpl.hpp
index 79c5e65..2b4d46b 100644
--- a/include/DOM/Simple/ElementByTagImpl.hpp
+++ b/include/DOM/Simple/ElementByTagImpl.hpp
@@ -124,6 +124,8 @@ class ElementByTagList : public DOM::NodeList_impl<stringT, string_adaptorT>
       for(DOM::Node_impl<stringT, string_adaptorT>* child = node->getFirstChild(); child != 0; child = child->getNextSibling())
         if(child->getNodeType() == DOM::Node<stringT, string_adaptorT>::ELEMENT_NODE)
           checkNode(child);
+        else
+          checkChildren(child); // an entity reference can contain elements
 	} // checkChildren
 
     typedef std::deque<DOM::Node_impl<stringT, string_adaptorT>*> NodeListT;
-- 
2.43.0


From f13fb668422fb24048ce9d6fbb01a3a9ea5f6206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:46 +0000
Subject: [PATCH 29/63] fix: evaluating a node-set value does not hand out
 ownership of itself

---
 include/XPath/impl/xpath_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_value.hpp b/include/XPath/impl/xpath_value.hpp
index 27eff4f..34003b1 100644
--- a/include/XPath/impl/xpath_value.hpp
+++ b/include/XPath/impl/xpath_value.hpp
@@ -167,7 +167,7 @@ public:
   virtual XPathValue<string_type, string_adaptor> evaluate(const DOM::Node<string_type, string_adaptor>& /* context */, 
 							   const ExecutionContext<string_type, string_adaptor>& /* executionContext */) const
   {
-    return XPathValue<string_type, string_adaptor>(this);
+    return createValue(set_);
   } // evaluate
 
   virtual bool asBool() const 
-- 
2.43.0


From ea1e43849fa42a1f9dcdb156013dda2167bb784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:46 +0000
Subject: [PATCH 30/63] fix: only XPath numerals convert to numbers, negative
 zero converts to 0

---
 include/XPath/impl/xpath_object.hpp | 9 ++++-----
 include/XPath/impl/xpath_value.hpp  | 2 ++
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 7727a0b..7b9c43e 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -420,13 +420,12 @@ template<class string_type, class string_adaptor>
 double stringAsNumber(const string_type& str)
 {
   try {
-    static string_type PLUS = string_adaptor::construct_from_utf8("+");
-
-    string_type n_str = Arabica::text::normalize_whitespace<string_type, string_adaptor>(str);
+    std::string n_str = string_adaptor::asStdString(Arabica::text::normalize_whitespace<string_type, string_adaptor>(str));
     // '+1.5' is not a number according to XPath spec, counter intuitive as that is
-    if(string_adaptor::find(n_str, PLUS) == 0)
+    // and neither are '1e5' or 'inf'
+    if(n_str.find_first_not_of("-.0123456789") != std::string::npos)
       return NaN;
-    
+
     return boost::lexical_cast<double>(n_str);
   } // try
   catch(const boost::bad_lexical_cast&) {
diff --git a/include/XPath/impl/xpath_value.hpp b/include/XPath/impl/xpath_value.hpp
index 34003b1..b5a0df3 100644
--- a/include/XPath/impl/xpath_value.hpp
+++ b/include/XPath/impl/xpath_value.hpp
@@ -112,6 +112,8 @@ public:
       return string_adaptor::construct_from_utf8("Infinity");
     if(isNegativeInfinity(value_))
       return string_adaptor::construct_from_utf8("-Infinity");
+    if(value_ == 0)
+      return string_adaptor::construct_from_utf8("0"); // negative zero too
     return string_adaptor::construct_from_utf8(boost::lexical_cast<std::string>(value_).c_str());
   } // asString
   virtual const NodeSet<string_type, string_adaptor>& asNodeSet() const { static NodeSet<string_type, string_adaptor> empty; return empty; }
-- 
2.43.0


From f3d14b5e6386fb8296023df7188d3724ebc1fd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:46 +0000
Subject: [PATCH 31/63] fix: relational comparisons with an empty node-set, or
 of a node-set with a boolean

---
 include/XPath/impl/xpath_object.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 7b9c43e..7224927 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -665,6 +665,8 @@ double maxValue(const NodeSet<string_type, string_adaptor>& ns)
 template<class Op, class string_type, class string_adaptor>
 bool compareNodeSets(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
 {
+  if(lhs.asNodeSet().empty() || rhs.asNodeSet().empty())
+    return false;
   return Op()(minValue<string_type, string_adaptor>(lhs.asNodeSet()), maxValue<string_type, string_adaptor>(rhs.asNodeSet()));
 } // compareNodeSets
 
@@ -721,6 +723,12 @@ bool areNotEqual(const XPathValue<string_type, string_adaptor>& lhs, const XPath
   return !areEqual<string_type, string_adaptor>(lhs, rhs);
 } // areNotEqual
 
+// a node-set compared with a boolean is converted to a boolean first
+inline bool isNodeSetAndBool(ValueType lt, ValueType rt)
+{
+  return ((lt == NODE_SET) && (rt == BOOL)) || ((lt == BOOL) && (rt == NODE_SET));
+} // isNodeSetAndBool
+
 template<class string_type, class string_adaptor> 
 bool isLessThan(const XPathValue<string_type, string_adaptor>& lhs, const XPathValue<string_type, string_adaptor>& rhs)
 {
@@ -730,6 +738,9 @@ bool isLessThan(const XPathValue<string_type, string_adaptor>& lhs, const XPathV
   if((lt == NODE_SET) && (rt == NODE_SET))
     return compareNodeSets<std::less<double>, string_type, string_adaptor>(lhs, rhs);
 
+  if(isNodeSetAndBool(lt, rt))
+    return lhs.asBool() < rhs.asBool();
+
   if(lt == NODE_SET)
     return compareNodeSetWith<std::less<double>, string_type, string_adaptor>(lhs, rhs);
 
@@ -748,6 +759,9 @@ bool isLessThanEquals(const XPathValue<string_type, string_adaptor>& lhs, const
   if((lt == NODE_SET) && (rt == NODE_SET))
     return compareNodeSets<std::less_equal<double>, string_type, string_adaptor>(lhs, rhs);
 
+  if(isNodeSetAndBool(lt, rt))
+    return lhs.asBool() <= rhs.asBool();
+
   if(lt == NODE_SET)
     return compareNodeSetWith<std::less_equal<double>, string_type, string_adaptor>(lhs, rhs);
 
-- 
2.43.0


From 834ed3a3e0dcfb12596e879114c455b4835526a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:47 +0000
Subject: [PATCH 32/63] fix: mod of fractions, infinities and zero

---
 include/XPath/impl/xpath_arithmetic.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/XPath/impl/xpath_arithmetic.hpp b/include/XPath/impl/xpath_arithmetic.hpp
index 3d4d0f3..7a71932 100644
--- a/include/XPath/impl/xpath_arithmetic.hpp
+++ b/include/XPath/impl/xpath_arithmetic.hpp
@@ -65,10 +65,8 @@ public:
 struct NaN_aware_modulus
 {	
   double operator()(const double& lhs, const double& rhs) const
-	{	// apply operator% to operands 
-    if(isNaN(lhs) || isNaN(rhs)) 
-      return NaN; 
-    return (static_cast<long>(lhs) % static_cast<long>(rhs)); 
+	{
+    return std::fmod(lhs, rhs);
 	}
 }; // NaN_aware_modulus
 
-- 
2.43.0


From 8d663d368ffa9b3ca1507ad061ba8777b389e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:07 +0000
Subject: [PATCH 33/63] fix: nodes of different fragments have one order

---
 include/XPath/impl/xpath_object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 7224927..2a4cbdd 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -104,7 +104,7 @@ int resolve_different_subtrees(const DOM::Node<string_type, string_adaptor>& lhs
     return 1;
 
   // otherwise, sort the frags
-  return (lp.underlying_impl() < lp.underlying_impl()) ? -1 : 1;
+  return (lp.underlying_impl() < rp.underlying_impl()) ? -1 : 1;
 } // resolve_different_subtrees
 
 template<class string_type, class string_adaptor>
-- 
2.43.0


From 33bb213dce183a91fd08bab729c13d4e1d4c2ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:07 +0000
Subject: [PATCH 34/63] fix: a namespace node occurs once in a node-set

---
 include/XPath/impl/xpath_object.hpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 2a4cbdd..3e8e478 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -145,6 +145,15 @@ int compareNodes(const DOM::Node<string_type, string_adaptor>& lhs,
   if(ultimate_parent(lhs) != ultimate_parent(rhs))
     return resolve_different_subtrees(lhs, rhs);
 
+  // the axis makes namespace nodes afresh each time, so an element's are told apart by name
+  if((lhs.getNodeType() == NAMESPACE_NODE_TYPE) && (rhs.getNodeType() == NAMESPACE_NODE_TYPE) &&
+     (lhs.getParentNode() == rhs.getParentNode()))
+  {
+    if(lhs.getNodeName() == rhs.getNodeName())
+      return 0;
+    return (rhs.getNodeName() < lhs.getNodeName()) ? -1 : 1;
+  } // if ...
+
   std::vector<unsigned int> pos1 = node_position(lhs);
   std::vector<unsigned int> pos2 = node_position(rhs);
 
@@ -174,6 +183,17 @@ bool nodes_less_than(const DOM::Node<string_type, string_adaptor>& n1,
   return compareNodes(n1, n2) < 0; 
 } // nodes_less_than
 
+template<class string_type, class string_adaptor>
+bool nodes_same(const DOM::Node<string_type, string_adaptor>& n1, 
+                const DOM::Node<string_type, string_adaptor>& n2) 
+{ 
+  if(n1 == n2)
+    return true;
+  return (n1.getNodeType() == NAMESPACE_NODE_TYPE) && 
+         (n2.getNodeType() == NAMESPACE_NODE_TYPE) &&
+         (compareNodes(n1, n2) == 0);
+} // nodes_same
+
 } // namespace impl
 
 ///////////////////////////////////////////////////////////
@@ -280,7 +300,7 @@ public:
     else
       std::sort(nodes_.rbegin(), nodes_.rend(), impl::nodes_less_than<string_type, string_adaptor>);
 
-    nodes_.erase(std::unique(nodes_.begin(), nodes_.end()), nodes_.end());
+    nodes_.erase(std::unique(nodes_.begin(), nodes_.end(), impl::nodes_same<string_type, string_adaptor>), nodes_.end());
     sorted_ = true;
   } // sort
 
-- 
2.43.0


From 33d6ccfbbb6528f60eae40478be175ae8008eb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:30 +0000
Subject: [PATCH 35/63] fix: translate() keeps the characters it does not
 translate

---
 include/XPath/impl/xpath_function.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XPath/impl/xpath_function.hpp b/include/XPath/impl/xpath_function.hpp
index 7c261d9..341e465 100644
--- a/include/XPath/impl/xpath_function.hpp
+++ b/include/XPath/impl/xpath_function.hpp
@@ -543,7 +543,7 @@ protected:
     {
       size_t r = string_adaptor::find(from, *i);
       if(r == string_adaptor::npos())
-        ++p;
+        *p++ = *i;
       else if(r < string_adaptor::length(to))
         *p++ = *(string_adaptor::begin(to) + r);
     } // for ...
-- 
2.43.0


From 0e4c9698e948b86bf32388a9d92bae45822056a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:30 +0000
Subject: [PATCH 36/63] fix: substring() past the end of the string, and from
 minus infinity

---
 include/XPath/impl/xpath_function.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/XPath/impl/xpath_function.hpp b/include/XPath/impl/xpath_function.hpp
index 341e465..114a6b8 100644
--- a/include/XPath/impl/xpath_function.hpp
+++ b/include/XPath/impl/xpath_function.hpp
@@ -471,18 +471,18 @@ protected:
     if(string_adaptor::empty(value))
       return string_adaptor::empty_string();
 
+    const double length = static_cast<double>(string_adaptor::length(value));
     double startAt = roundNumber(baseT::argAsNumber(1, context, executionContext)) - 1;
-    double endAt = roundNumber((baseT::argCount() == 3 ? baseT::argAsNumber(2, context, executionContext) : Infinity)) + startAt;
-
-    if((endAt < 0) || (endAt < startAt) || (isNaN(endAt)))
-      return string_adaptor::empty_string();
+    double endAt = (baseT::argCount() == 3) ? roundNumber(baseT::argAsNumber(2, context, executionContext)) + startAt : length;
 
     if(startAt < 0)
       startAt = 0;
-    if((isInfinite(endAt)) || (endAt > string_adaptor::length(value)))
-      endAt = static_cast<double>(string_adaptor::length(value));
+    if(endAt > length)
+      endAt = length;
+    if(!(startAt < endAt)) // nothing in range, or NaN
+      return string_adaptor::empty_string();
 
-    return string_adaptor::substr(value, static_cast<int>(startAt), static_cast<int>(endAt - startAt));
+    return string_adaptor::substr(value, static_cast<size_t>(startAt), static_cast<size_t>(endAt - startAt));
   } // evaluate
 }; // SubstringFn
 
-- 
2.43.0


From 469918f19f66e5f0dfaf7e8826fa3a2794bdf786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:30 +0000
Subject: [PATCH 37/63] fix: round() of -0.5, and of numbers which adding 0.5
 to rounds up

---
 include/XPath/impl/xpath_object.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/XPath/impl/xpath_object.hpp b/include/XPath/impl/xpath_object.hpp
index 3e8e478..0f006e4 100644
--- a/include/XPath/impl/xpath_object.hpp
+++ b/include/XPath/impl/xpath_object.hpp
@@ -428,10 +428,14 @@ inline double roundNumber(double value)
 { 
   if(!(isNaN(value) || isInfinite(value) || (std::fabs(value) == 0)))
   {
-    if((value < 0.0) && (value > -0.5))
+    if((value < 0.0) && (value >= -0.5))
       value = -0.0;
     else
-      value = std::floor(value + 0.5);
+    {
+      // floor(value + 0.5) would itself be rounded
+      double lower = std::floor(value);
+      value = (value - lower < 0.5) ? lower : lower + 1;
+    } // if ...
   } // if ...
   return value;
 } // roundNumber
-- 
2.43.0


From c1079297c390b45b81848843cf2485232540cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:15 +0000
Subject: [PATCH 38/63] fix: DOM output of CDATA sections holding ]]> more than
 once repeated text

---
 include/DOM/io/Stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index ace6cf9..b824e15 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -311,7 +311,7 @@ void streamCDATA(std::basic_ostream<charT, traitsT>& stream, const DOM::Node<str
     do
     {
       breakAt += 2;
-      stream << string_adaptorT::substr(value, start, breakAt);
+      stream << string_adaptorT::substr(value, start, breakAt - start);
       StreamImpl::endCDATA(stream);
       start = breakAt;
       StreamImpl::startCDATA(stream);
-- 
2.43.0


From decc5eeda0879c818ddd5d78b9f847c61e8ebe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:16 +0000
Subject: [PATCH 39/63] fix: writing an element that has no parent dereferenced
 a null node

---
 include/DOM/io/Stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index b824e15..c95a93c 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -145,7 +145,7 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
 
     std::map<stringT, stringT> prefixes;
     for(DOM::Node<stringT, string_adaptorT> p = node.getParentNode(); 
-        p.getNodeType() == DOM::Node_base::ELEMENT_NODE; 
+        p != 0 && p.getNodeType() == DOM::Node_base::ELEMENT_NODE; 
         p = p.getParentNode())
     {
       if(string_adaptorT::empty(p.getNamespaceURI()))
-- 
2.43.0


From 2d1a3e7dc860d616429061e14680b18f3e532a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:41 +0000
Subject: [PATCH 40/63] fix: DOM output wrote prefixes that were undeclared,
 shadowed or declared twice

---
 include/DOM/io/Stream.hpp | 164 ++++++++++++++++++++++++--------------
 1 file changed, 105 insertions(+), 59 deletions(-)

diff --git a/include/DOM/io/Stream.hpp b/include/DOM/io/Stream.hpp
index c95a93c..cbf31d7 100644
--- a/include/DOM/io/Stream.hpp
+++ b/include/DOM/io/Stream.hpp
@@ -40,56 +40,96 @@ template<class stringT>
 void prefix_mapper_callback(std::ios_base::event ev, std::ios_base& stream, int index)
 {
   if(ev == std::ios_base::erase_event)
-    delete static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
+    delete static_cast<std::vector<std::multimap<stringT, stringT> >*>(stream.pword(index));
 } // boing_callback
 
+// namespaces declared on each open element, as namespace URI -> prefix
 template<class stringT>
-std::pair<bool, stringT> is_uri_declared(std::vector<std::map<stringT, stringT> >* prefix_stack, const stringT& namespaceURI)
+std::pair<bool, stringT> uri_for_prefix(std::vector<std::multimap<stringT, stringT> >* prefix_stack, const stringT& prefix)
 {
-  stringT declared_prefix;
-  for(typename std::vector<std::map<stringT, stringT> >::reverse_iterator b = prefix_stack->rbegin(), e = prefix_stack->rend();
-        b != e;
-        ++b)
-  {
-    typename std::map<stringT, stringT>::const_iterator p = b->find(namespaceURI);
-    if(p != b->end())
-      return std::make_pair(true, p->second);
-  } // for ...
+  typedef std::vector<std::multimap<stringT, stringT> > stack_type;
+
+  for(typename stack_type::reverse_iterator b = prefix_stack->rbegin(), e = prefix_stack->rend(); b != e; ++b)
+    for(typename std::multimap<stringT, stringT>::const_iterator p = b->begin(), pe = b->end(); p != pe; ++p)
+      if(p->second == prefix)
+        return std::make_pair(true, p->first);
+
+  return std::make_pair(false, stringT());
+} // uri_for_prefix
+
+template<class stringT, class string_adaptorT>
+std::pair<bool, stringT> is_uri_declared(std::vector<std::multimap<stringT, stringT> >* prefix_stack, 
+                                         const stringT& namespaceURI,
+                                         const bool is_attribute)
+{
+  typedef std::vector<std::multimap<stringT, stringT> > stack_type;
+
+  for(typename stack_type::reverse_iterator b = prefix_stack->rbegin(), e = prefix_stack->rend(); b != e; ++b)
+    for(typename std::multimap<stringT, stringT>::const_iterator p = b->begin(), pe = b->end(); p != pe; ++p)
+    {
+      if(!(p->first == namespaceURI))
+        continue;
+      if(is_attribute && string_adaptorT::empty(p->second))
+        continue; // the default namespace does not apply to attributes
+      if(uri_for_prefix(prefix_stack, p->second).second == namespaceURI)
+        return std::make_pair(true, p->second);
+    } // for ...
 
   return std::make_pair(false, stringT());
 } // is_uri_declared
 
 template<class stringT, class string_adaptorT, class charT, class traitsT>
-void check_and_output_node_name(std::basic_ostream<charT, traitsT>& stream, 
-                                const DOM::Node<stringT, string_adaptorT>& node, 
-                                std::vector<std::map<stringT, stringT> >* prefix_stack,
-				const bool is_attribute,
-				const long index)
+void output_node_name(std::basic_ostream<charT, traitsT>& stream, 
+                      const DOM::Node<stringT, string_adaptorT>& node, 
+                      const stringT& prefix)
 {
-  std::map<stringT, stringT>& current = *(prefix_stack->rbegin());
+  if(string_adaptorT::empty(node.getNamespaceURI()))
+  {
+    stream << node.getNodeName();
+    return;
+  } // if ...
+
+  if(!string_adaptorT::empty(prefix))
+    stream << prefix << Arabica::text::Unicode<charT>::COLON;
+  stream << node.getLocalName();
+} // output_node_name
+
+// returns the prefix used
+template<class stringT, class string_adaptorT, class charT, class traitsT>
+stringT check_and_output_node_name(std::basic_ostream<charT, traitsT>& stream, 
+                                   const DOM::Node<stringT, string_adaptorT>& node, 
+                                   std::vector<std::multimap<stringT, stringT> >* prefix_stack,
+                                   const bool is_attribute,
+                                   const long index)
+{
+  std::multimap<stringT, stringT>& current = *(prefix_stack->rbegin());
 
   stringT namespaceURI = node.getNamespaceURI();
+  stringT prefix;
   if(!string_adaptorT::empty(namespaceURI))
   {
-    std::pair<bool, stringT> prefix = is_uri_declared(prefix_stack, namespaceURI);
-    
-    if(!prefix.first)
+    std::pair<bool, stringT> declared = is_uri_declared<stringT, string_adaptorT>(prefix_stack, namespaceURI, is_attribute);
+    prefix = declared.second;
+
+    if(!declared.first)
     {
-      current[namespaceURI] = prefix.second = node.getPrefix();
-      if(is_attribute && string_adaptorT::empty(prefix.second))
+      if(!is_attribute || !is_uri_declared<stringT, string_adaptorT>(prefix_stack, namespaceURI, false).first)
+        prefix = node.getPrefix();
+      while(is_attribute && 
+            (string_adaptorT::empty(prefix) || uri_for_prefix(prefix_stack, prefix).first))
       {
-	std::ostringstream os;
-	os << 'a' << stream.iword(index)++;
-	current[namespaceURI] = prefix.second = string_adaptorT::construct_from_utf8(os.str().c_str());
-      } // if ...
+        std::ostringstream os;
+        os << 'a' << stream.iword(index)++;
+        prefix = string_adaptorT::construct_from_utf8(os.str().c_str());
+      } // while ...
+      current.insert(std::make_pair(namespaceURI, prefix));
     } // if ...
-
-    if(!string_adaptorT::empty(prefix.second))
-      stream << prefix.second << Arabica::text::Unicode<charT>::COLON;
-    stream << node.getLocalName();
   }
-  else
-    stream << node.getNodeName();
+  else if(!is_attribute && !string_adaptorT::empty(uri_for_prefix(prefix_stack, prefix).second))
+    current.insert(std::make_pair(namespaceURI, prefix)); // no default namespace here
+
+  output_node_name(stream, node, prefix);
+  return prefix;
 } // check_and_output_node_name
 
 template<class stringT, class string_adaptorT, class charT>
@@ -125,42 +165,51 @@ bool compare_nodes_by_name(const DOM::Node<stringT, string_adaptorT>& lhs,
 
 template<class stringT, class string_adaptorT, class charT, class traitsT>
 int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
-                  const DOM::Node<stringT, string_adaptorT>& node)
+                  const DOM::Node<stringT, string_adaptorT>& node,
+                  stringT& prefix)
 {
   typedef Arabica::text::Unicode<charT> UnicodeT;
 
   static const int index = std::ios_base::xalloc();
-  std::vector<std::map<stringT, stringT> >* prefix_stack;
+  std::vector<std::multimap<stringT, stringT> >* prefix_stack;
   
   if(stream.pword(index) != 0)
   {
-    prefix_stack = static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
-    prefix_stack->push_back(std::map<stringT, stringT>());
+    prefix_stack = static_cast<std::vector<std::multimap<stringT, stringT> >*>(stream.pword(index));
+    prefix_stack->push_back(std::multimap<stringT, stringT>());
   }
   else
   {
-    prefix_stack = new std::vector<std::map<stringT, stringT> >;
+    prefix_stack = new std::vector<std::multimap<stringT, stringT> >;
     stream.pword(index) = prefix_stack;
     stream.iword(index) = 0;
 
-    std::map<stringT, stringT> prefixes;
-    for(DOM::Node<stringT, string_adaptorT> p = node.getParentNode(); 
+    prefix_stack->push_back(std::multimap<stringT, stringT>());
+
+    // declare everything in scope, nearest first
+    bool default_seen = false;
+    for(DOM::Node<stringT, string_adaptorT> p = node; 
         p != 0 && p.getNodeType() == DOM::Node_base::ELEMENT_NODE; 
         p = p.getParentNode())
     {
+      const stringT p_prefix = p.getPrefix();
+      if(string_adaptorT::empty(p_prefix))
+      {
+        if(default_seen)
+          continue;
+        default_seen = true;
+      } // if ...
       if(string_adaptorT::empty(p.getNamespaceURI()))
         continue;
-      if(prefixes.find(p.getNamespaceURI()) == prefixes.end())
-        prefixes[p.getNamespaceURI()] = p.getPrefix();
+      if(!uri_for_prefix(prefix_stack, p_prefix).first)
+        prefix_stack->rbegin()->insert(std::make_pair(p.getNamespaceURI(), p_prefix));
     } // for ...
-
-    prefix_stack->push_back(prefixes);
   } // if ...
 
-  std::map<stringT, stringT>& current = *(prefix_stack->rbegin());
+  std::multimap<stringT, stringT>& current = *(prefix_stack->rbegin());
 
   // is element namespace URI declared?
-  check_and_output_node_name(stream, node, prefix_stack, false, index);
+  prefix = check_and_output_node_name(stream, node, prefix_stack, false, index);
   
   const DOM::NamedNodeMap<stringT, string_adaptorT> attrs = node.getAttributes();
   std::vector<DOM::Node<stringT, string_adaptorT> > attrNodes;
@@ -188,7 +237,7 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
     stream << UnicodeT::QUOTATION_MARK;
   }
 
-  for(typename std::map<stringT, stringT>::const_iterator i = current.begin(), e = current.end();
+  for(typename std::multimap<stringT, stringT>::const_iterator i = current.begin(), e = current.end();
       i != e;
       ++i)
   {
@@ -210,22 +259,17 @@ int prefix_mapper(std::basic_ostream<charT, traitsT>& stream,
   return index;
 } // prefix_mapper
 
-template<class stringT, class string_adaptorT, class charT, class traitsT>
+template<class stringT, class charT, class traitsT>
 void prefix_mapper_pop(std::basic_ostream<charT, traitsT>& stream,
-                       const DOM::Node<stringT, string_adaptorT>& node,
-                       int index, 
-                       bool output)
+                       int index)
 {
-  std::vector<std::map<stringT, stringT> >* prefix_stack = 
-    static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
-
-  if(output)
-    check_and_output_node_name(stream, node, prefix_stack, false, index);
+  std::vector<std::multimap<stringT, stringT> >* prefix_stack = 
+    static_cast<std::vector<std::multimap<stringT, stringT> >*>(stream.pword(index));
 
   prefix_stack->pop_back();
   if(prefix_stack->empty())
   {
-    delete static_cast<std::vector<std::map<stringT, stringT> >*>(stream.pword(index));
+    delete static_cast<std::vector<std::multimap<stringT, stringT> >*>(stream.pword(index));
     stream.pword(index) = 0;
   } // if ...
 } // prefix_mapper_pop
@@ -249,19 +293,21 @@ void streamElement(std::basic_ostream<charT, traitsT>& stream, const DOM::Node<s
   typedef Arabica::text::Unicode<charT> UnicodeT;
 
   stream << UnicodeT::LESS_THAN_SIGN;
-  int index = StreamImpl::prefix_mapper(stream, node);
+  stringT prefix;
+  int index = StreamImpl::prefix_mapper(stream, node, prefix);
 
   if(node.hasChildNodes())
   {
     stream << UnicodeT::GREATER_THAN_SIGN;
     StreamImpl::streamChildren(stream, node);
     stream << UnicodeT::LESS_THAN_SIGN << UnicodeT::SLASH;
-    StreamImpl::prefix_mapper_pop(stream, node, index, true);
+    StreamImpl::output_node_name(stream, node, prefix);
+    StreamImpl::prefix_mapper_pop<stringT>(stream, index);
     stream << UnicodeT::GREATER_THAN_SIGN;
   }
   else
   {
-    StreamImpl::prefix_mapper_pop(stream, node, index, false);
+    StreamImpl::prefix_mapper_pop<stringT>(stream, index);
     stream << UnicodeT::SLASH << UnicodeT::GREATER_THAN_SIGN;
   }
 } // streamElement
-- 
2.43.0


From 605767d350ff63ccd4f5e31445d8b0b667261add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:54 +0000
Subject: [PATCH 41/63] fix: XSLT output of an unprefixed element without a
 namespace kept the default namespace in scope

---
 include/XSLT/impl/xslt_namespace_stack.hpp | 6 ++++++
 include/XSLT/impl/xslt_output.hpp          | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/include/XSLT/impl/xslt_namespace_stack.hpp b/include/XSLT/impl/xslt_namespace_stack.hpp
index 79516b1..22b951d 100644
--- a/include/XSLT/impl/xslt_namespace_stack.hpp
+++ b/include/XSLT/impl/xslt_namespace_stack.hpp
@@ -50,6 +50,12 @@ public:
     uriStack_.back()[namespaceURI] = prefix;
   } // declareNamespace
 
+  void undeclareDefault()
+  {
+    if(findURI(EMPTY_STRING) != EMPTY_STRING)
+      prefixStack_.back()[EMPTY_STRING] = EMPTY_STRING;
+  } // undeclareDefault
+
   const string_type& findURI(const string_type& prefix) const
   {
     return searchStack(prefixStack_, prefix);
diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index f692d80..cb05ef8 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -67,6 +67,8 @@ public:
     namespaceStack_.pushScope();
     if(!string_adaptor::empty(namespaceURI))
       namespaceStack_.declareNamespace(prefix, namespaceURI);
+    else
+      namespaceStack_.undeclareDefault();
 
     string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
 
-- 
2.43.0


From 2de16377bd1d8b763198e40dc68898d30abb1867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:47 +0000
Subject: [PATCH 42/63] fix: an empty attribute value template did not compile

---
 include/XSLT/impl/xslt_compilation_context.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/XSLT/impl/xslt_compilation_context.hpp b/include/XSLT/impl/xslt_compilation_context.hpp
index 51ff879..b590767 100644
--- a/include/XSLT/impl/xslt_compilation_context.hpp
+++ b/include/XSLT/impl/xslt_compilation_context.hpp
@@ -85,7 +85,12 @@ public:
     return xpath_match(match);
   } // xpath_match_no_variables
 
-  XPathExpressionPtrT xpath_attribute_value_template(const string_type& expr) const { return xpath_.compile_attribute_value_template(expr); } 
+  XPathExpressionPtrT xpath_attribute_value_template(const string_type& expr) const 
+  { 
+    if(string_adaptor::empty(expr))
+      return XPathExpressionPtrT(new Arabica::XPath::StringValue<string_type, string_adaptor>(expr));
+    return xpath_.compile_attribute_value_template(expr); 
+  } // xpath_attribute_value_template
   CompiledStylesheetT& stylesheet() const { return stylesheet_; }
 
   QualifiedNameT processElementQName(const string_type& qName) const
-- 
2.43.0


From 850ff6a9cd6f5af1cdde7f175942f32ae2af68d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:47 +0000
Subject: [PATCH 43/63] fix: xsl:element and xsl:attribute ignored namespace=""

---
 include/XSLT/impl/handler/xslt_attribute_handler.hpp | 2 +-
 include/XSLT/impl/handler/xslt_element_handler.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/XSLT/impl/handler/xslt_attribute_handler.hpp b/include/XSLT/impl/handler/xslt_attribute_handler.hpp
index d6621fa..c1bd36d 100644
--- a/include/XSLT/impl/handler/xslt_attribute_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_attribute_handler.hpp
@@ -35,7 +35,7 @@ protected:
     Arabica::XPath::XPathExpressionPtr<string_type, string_adaptor> name = 
                          baseT::context().xpath_attribute_value_template(attrs[SC::name]);
 
-    if(attrs[SC::namespace_] == string_adaptor::empty_string())
+    if(atts.getIndex(SC::namespace_) == -1)
       return new Attribute<string_type, string_adaptor>(name, baseT::context().inScopeNamespaces());
 
     return new Attribute<string_type, string_adaptor>(name, baseT::context().xpath_attribute_value_template(attrs[SC::namespace_]));
diff --git a/include/XSLT/impl/handler/xslt_element_handler.hpp b/include/XSLT/impl/handler/xslt_element_handler.hpp
index 08a7aad..535e244 100644
--- a/include/XSLT/impl/handler/xslt_element_handler.hpp
+++ b/include/XSLT/impl/handler/xslt_element_handler.hpp
@@ -39,7 +39,7 @@ protected:
     if(attrs[SC::use_attribute_sets] != string_adaptor::empty_string())
       throw SAX::SAXException("don't understand use-attribute-sets yet");
     
-    if(attrs[SC::namespace_] == string_adaptor::empty_string())
+    if(atts.getIndex(SC::namespace_) == -1)
       return new Element<string_type, string_adaptor>(name, 
                          baseT::context().inScopeNamespaces(),
                          attrs[SC::use_attribute_sets]);
-- 
2.43.0


From 12afd4d060492b39e74b833b1eed02c335a2eb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:21 +0000
Subject: [PATCH 44/63] fix: XSLT output bound prefixes twice on an element and
 used prefixes which had been redeclared

---
 include/XSLT/impl/xslt_namespace_stack.hpp | 25 +++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/XSLT/impl/xslt_namespace_stack.hpp b/include/XSLT/impl/xslt_namespace_stack.hpp
index 22b951d..465ec32 100644
--- a/include/XSLT/impl/xslt_namespace_stack.hpp
+++ b/include/XSLT/impl/xslt_namespace_stack.hpp
@@ -23,6 +23,8 @@ public:
   {
     prefixStack_.push_back(Scope());
     uriStack_.push_back(Scope());
+    prefixStack_.back()[SC::xml] = SC::xml_uri;
+    uriStack_.back()[SC::xml_uri] = SC::xml;
   } // NamespaceStack
 
   void pushScope()
@@ -42,7 +44,9 @@ public:
     if(findPrefix(namespaceURI) != EMPTY_STRING)
       return;
 
-    bool remap = (attr && string_adaptor::empty(given_prefix)) || (given_prefix == SC::xmlns);
+    bool reserved = (given_prefix == SC::xmlns) || (given_prefix == SC::xml);
+    bool unusable = string_adaptor::empty(given_prefix) || !string_adaptor::empty(findURI(given_prefix));
+    bool remap = reserved || (attr && unusable);
 
     string_type prefix = !remap ? given_prefix : autoNamespacePrefix();
 
@@ -63,7 +67,13 @@ public:
 
   const string_type& findPrefix(const string_type& uri) const
   {
-    return searchStack(uriStack_, uri);
+    for(typename ScopeStack::const_reverse_iterator ss = uriStack_.rbegin(), se = uriStack_.rend(); ss != se; ++ss)
+    {
+      typename Scope::const_iterator i = ss->find(uri);
+      if((i != ss->end()) && (findURI(i->second) == uri))  // not if the prefix has since been redeclared
+        return i->second;
+    }
+    return EMPTY_STRING;
   } // findPrefix
 
   typename Scope::const_iterator begin() { return prefixStack_.back().begin(); }
@@ -85,9 +95,14 @@ private:
 
   string_type autoNamespacePrefix()
   {
-    std::basic_ostringstream<typename string_adaptor::value_type> ss;
-    ss << SC::auto_ns << autoNs_++;
-    return string_adaptor::construct(ss.str());
+    string_type prefix;
+    do
+    {
+      std::basic_ostringstream<typename string_adaptor::value_type> ss;
+      ss << SC::auto_ns << autoNs_++;
+      prefix = string_adaptor::construct(ss.str());
+    } while(!string_adaptor::empty(findURI(prefix)));
+    return prefix;
   } // autoNamespacePrefix
 
   ScopeStack prefixStack_;
-- 
2.43.0


From d1ad5c307c3e4a1b6113409c87b9291a11030384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:21 +0000
Subject: [PATCH 45/63] fix: XSLT output repeated text around ]]> in CDATA
 sections and missed one split over two calls

---
 include/XSLT/impl/xslt_sink.hpp | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 6cf42ab..6352162 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -89,6 +89,7 @@ public:
     stream_(stream),
     disable_output_escaping_(false),
     in_cdata_(false),
+    brackets_(0),
     empty_(false),
     seen_root_(true),
     indent_(-1),
@@ -100,6 +101,7 @@ public:
     stream_(rhs.stream_),
     disable_output_escaping_(rhs.disable_output_escaping_),
     in_cdata_(rhs.in_cdata_),
+    brackets_(rhs.brackets_),
     empty_(false),
     seen_root_(rhs.seen_root_),
     indent_(rhs.indent_),
@@ -182,24 +184,16 @@ protected:
       std::for_each(string_adaptor::begin(ch), string_adaptor::end(ch), Arabica::XML::text_escaper<typename string_adaptor::value_type>(stream_));
     else if(in_cdata_) 
     {
-      size_t breakAt = string_adaptor::find(ch, SC::CDATAEnd);
-      if(breakAt == string_adaptor::npos())
+      for(typename string_adaptor::const_iterator i = string_adaptor::begin(ch), e = string_adaptor::end(ch); i != e; ++i)
       {
-        stream_ << ch;
-        return;
+        if((brackets_ >= 2) && (*i == SC::GREATER_THAN_SIGN))
+        {
+          do_end_CDATA();
+          do_start_CDATA();
+        }
+        brackets_ = (*i == SC::RIGHT_SQUARE_BRACKET) ? brackets_ + 1 : 0;
+        stream_ << *i;
       }
-      size_t start = 0;
-      do
-      {
-        breakAt += 2;
-        stream_ << string_adaptor::substr(ch, start, breakAt);
-        do_end_CDATA();
-        start = breakAt;
-        do_start_CDATA();
-        breakAt = string_adaptor::find(ch, SC::CDATAEnd, breakAt);
-      }
-      while(breakAt != string_adaptor::npos());
-      stream_ << string_adaptor::substr(ch, start);
     }
     else
       stream_ << ch;
@@ -210,6 +204,7 @@ protected:
     close_element_if_empty();
 
     in_cdata_ = true;
+    brackets_ = 0;
     stream_ << SC::CDATAStart;
   } // do_start_CDATA
 
@@ -337,6 +332,7 @@ private:
   std::basic_ostream<typename string_adaptor::value_type>& stream_;
   bool disable_output_escaping_;
   bool in_cdata_;
+  int brackets_;
   bool empty_;
   bool seen_root_;
   int indent_;
-- 
2.43.0


From a7194dc1bb2015b0cf04b0531b89140eab7ddeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:21 +0000
Subject: [PATCH 46/63] fix: XSLT output lost the DOCTYPE after a leading
 comment and with omit-xml-declaration

---
 include/XSLT/impl/xslt_sink.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/XSLT/impl/xslt_sink.hpp b/include/XSLT/impl/xslt_sink.hpp
index 6352162..5522b4b 100644
--- a/include/XSLT/impl/xslt_sink.hpp
+++ b/include/XSLT/impl/xslt_sink.hpp
@@ -91,6 +91,7 @@ public:
     in_cdata_(false),
     brackets_(0),
     empty_(false),
+    seen_decl_(true),
     seen_root_(true),
     indent_(-1),
     out_again_(false)
@@ -103,6 +104,7 @@ public:
     in_cdata_(rhs.in_cdata_),
     brackets_(rhs.brackets_),
     empty_(false),
+    seen_decl_(rhs.seen_decl_),
     seen_root_(rhs.seen_root_),
     indent_(rhs.indent_),
     out_again_(rhs.out_again_),
@@ -126,6 +128,7 @@ protected:
 
   void do_start_document(const Settings& settings)
   {
+    seen_decl_ = false;
     seen_root_ = false;
     settings_ = settings;
     if(setting(SC::indent) == SC::yes)
@@ -288,21 +291,22 @@ private:
  
   void do_decl(const string_type& qName)
   {
-    if((setting(SC::method) == SC::text) || (setting(SC::omit_xml_declaration) == SC::yes))
+    if(setting(SC::method) == SC::text)
       return;
 
+    if(!seen_decl_ && (setting(SC::omit_xml_declaration) != SC::yes))
     {
       string_type version = setting(SC::version);
       if(string_adaptor::empty(version))
         version = SC::Version;
       stream_ << "<?xml version=\"" << version << "\""; 
-    }
-    {
+
       string_type s = setting(SC::standalone);
       if(!string_adaptor::empty(s))
         stream_ << " standalone=\"" << s << "\"";
+      stream_ << "?>\n";
     }
-    stream_ << "?>\n";
+    seen_decl_ = true;
 
     if(!string_adaptor::empty(qName))
     {
@@ -317,8 +321,8 @@ private:
 	else
           stream_ << "  SYSTEM \"" << sys << "\">\n";
       } // if(!sys.empty())
+      seen_root_ = true;
     }
-    seen_root_ = true;
   } // do_decl 
 
   string_type setting(const string_type& name)
@@ -334,6 +338,7 @@ private:
   bool in_cdata_;
   int brackets_;
   bool empty_;
+  bool seen_decl_;
   bool seen_root_;
   int indent_;
   bool out_again_;
-- 
2.43.0


From 7dd8b4b044d9af86fa45749f59b3157bad264934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:21 +0000
Subject: [PATCH 47/63] fix: attributes copied to XSLT output did not declare
 their namespace and could be repeated

---
 include/XSLT/impl/xslt_output.hpp | 34 +++++++++++++++++++------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index cb05ef8..d28b1b4 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -129,18 +129,7 @@ public:
       return;
     } // if ...
 
-    if(!string_adaptor::empty(namespaceURI))
-      namespaceStack_.declareNamespace(prefix, namespaceURI, true);
-
-    string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
-    string_type qName = (!string_adaptor::empty(mapped_prefix)) ? makeName(mapped_prefix, localName) : localName;
-
-    atts_.addOrReplaceAttribute(namespaceURI,
-                                localName,
-                                qName,
-                                string_adaptor::empty_string(),
-                                string_adaptor::empty_string());
-    pending_attribute_ = atts_.getIndex(qName);
+    pending_attribute_ = set_attribute(prefix, localName, namespaceURI, string_adaptor::empty_string());
   } // start_attribute
 
   void end_attribute()
@@ -161,13 +150,16 @@ public:
 		                 const string_type& qName,
 		                 const string_type& value) 
   {
+    if(is_buffering())
+      return;
+
     if(!pending_element_)
     {  
       warning(string_adaptor::construct_from_utf8("WARNING: Cannot write attribute, no open element"));
       return;
     } // if ...
 
-    atts_.addAttribute(uri, localName, qName, string_adaptor::empty_string(), value); 
+    set_attribute(QName<string_type, string_adaptor>::create(qName, uri).prefix, localName, uri, value);
   } // add_attribute
 
   void characters(const string_type& ch)
@@ -268,6 +260,22 @@ protected:
   virtual bool want_namespace_declarations() const = 0;
 
 private:
+  int set_attribute(const string_type& prefix, const string_type& localName, const string_type& namespaceURI, const string_type& value)
+  {
+    if(!string_adaptor::empty(namespaceURI))
+      namespaceStack_.declareNamespace(prefix, namespaceURI, true);
+
+    string_type mapped_prefix = namespaceStack_.findPrefix(namespaceURI);
+    string_type qName = (!string_adaptor::empty(mapped_prefix)) ? makeName(mapped_prefix, localName) : localName;
+
+    atts_.addOrReplaceAttribute(namespaceURI,
+                                localName,
+                                qName,
+                                string_adaptor::empty_string(),
+                                value);
+    return atts_.getIndex(qName);
+  } // set_attribute
+
   string_type escape(string_type str, const string_type& t, const string_type& r) const
   {
     typename string_adaptor::size_type naughty = string_adaptor::find(str, t);
-- 
2.43.0


From 7589f3d130e3bd28576022169cfe467c50d4da52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:30 +0000
Subject: [PATCH 48/63] fix: XSLT text output wrote CDATA section marks for
 cdata-section-elements

---
 include/XSLT/impl/xslt_output.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index d28b1b4..193c9d9 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -42,7 +42,7 @@ public:
     if(text_mode_)
       do_disableOutputEscaping(true);
 
-    cdataElements_ = cdataElements;
+    cdataElements_ = !text_mode_ ? cdataElements : CDATAElements();
     do_start_document(settings);
   } // start_document
 
-- 
2.43.0


From b87d5a0ed0ef16792501c6e57992db065aa30f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:39 +0000
Subject: [PATCH 49/63] fix: Expat reader ended prefix mappings at elements
 which declared none

---
 include/SAX/wrappers/saxexpat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index caafaab..6e8061b 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -689,14 +689,14 @@ void expat_wrapper<string_type, T0, T1>::endElement(const char* qName)
 
   qualifiedNameT name = processName(SA::construct_from_utf8(qName), false);
   contentHandler_->endElement(name.namespaceUri(), name.localName(), name.rawName());
-  typename namespaceSupportT::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
-  for(size_t i = 0, end = prefixes.size(); i < end; ++i)
-    contentHandler_->endPrefixMapping(prefixes[i]);
   
   bool pushedContext = namespaceContextCreated_.back();
   namespaceContextCreated_.pop_back();
   if (pushedContext)
   {
+    typename namespaceSupportT::stringListT prefixes = nsSupport_.getDeclaredPrefixes();
+    for(size_t i = 0, end = prefixes.size(); i < end; ++i)
+      contentHandler_->endPrefixMapping(prefixes[i]);
     nsSupport_.popContext();
   }
 } // endElement
-- 
2.43.0


From 37997b5e35e0f696642075b6af07874965c7b18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:39 +0000
Subject: [PATCH 50/63] fix: Expat reader took attributes whose names begin
 xmlns for namespace declarations

---
 include/SAX/wrappers/saxexpat.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 6e8061b..031db31 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -313,6 +313,7 @@ class expat_wrapper :
     void setCallbacks();
     void startElementNoNS(const char* qName, const char** atts);
     void endElementNoNS(const char* qName);
+    bool isNamespaceDeclaration(const string_type& attQName) const;
     void convertXML_Content(std::ostream& os, const XML_Content* model, bool isChild = false);
 
     // member variables
@@ -604,7 +605,7 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
       string_type value = SA::construct_from_utf8(*a1++);
 
       // declaration?
-      if(SA::find(attQName, nsc_.xmlns) == 0) 
+      if(isNamespaceDeclaration(attQName))
       {
         if (!pushedContext)
         {
@@ -634,7 +635,7 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
       string_type value = SA::construct_from_utf8(*atts++);
 
       // declaration?
-      if(SA::find(attQName, nsc_.xmlns) != 0) 
+      if(!isNamespaceDeclaration(attQName))
       {
         qualifiedNameT attName = processName(attQName, true);
         attributes.addAttribute(attName.namespaceUri(), 
@@ -652,6 +653,16 @@ void expat_wrapper<string_type, T0, T1>::startElement(const char* qName, const c
   contentHandler_->startElement(name.namespaceUri(), name.localName(), name.rawName(), attributes);
 } // startElement
 
+template<class string_type, class T0, class T1>
+bool expat_wrapper<string_type, T0, T1>::isNamespaceDeclaration(const string_type& attQName) const
+{
+  string_type declaration = nsc_.xmlns;
+  if(attQName == declaration)
+    return true;
+  SA::append(declaration, nsc_.colon);
+  return SA::find(attQName, declaration) == 0;
+} // isNamespaceDeclaration
+
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::startElementNoNS(const char* qName, const char** atts)
 {
-- 
2.43.0


From 8f726ccad0bfd0da4b6da6e03e0d578a26bd8ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:39 +0000
Subject: [PATCH 51/63] fix: Expat reader reported #IMPLIED for attributes
 declared with a default

---
 include/SAX/wrappers/saxexpat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 031db31..2ed1052 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -864,7 +864,7 @@ void expat_wrapper<string_type, T0, T1>::attListDeclaration(const XML_Char* elna
   default is non-NULL, then this is a "#FIXED" default. */
   if(declHandler_)
   {
-    const string_type* defType = &attrDefaults_.implied;
+    const string_type* defType = dflt ? &emptyString_ : &attrDefaults_.implied;
     if(isrequired)
       defType = dflt ? &attrDefaults_.fixed : &attrDefaults_.required;
     declHandler_->attributeDecl(SA::construct_from_utf8(elname), 
-- 
2.43.0


From 1db1435cf0bf4cb1db66980d4667bf0f6232d780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:39 +0000
Subject: [PATCH 52/63] fix: Expat reader left out the | after #PCDATA in mixed
 content models

---
 include/SAX/wrappers/saxexpat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 2ed1052..a028326 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -824,7 +824,7 @@ struct XML_cp {
 
     for(unsigned int i = 0; i < model->numchildren; ++i)
     {
-      if(i != 0)
+      if(i != 0 || model->type == XML_CTYPE_MIXED)
         os << concatenator;
       convertXML_Content(os, &(model->children[i]), true); 
     } // for ... 
-- 
2.43.0


From 7e7a54f1ca5e8ff3bf8961df0bb0524c0bf86847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:39 +0000
Subject: [PATCH 53/63] fix: Expat reader reported skipped parameter entities
 without their %

---
 include/SAX/wrappers/saxexpat.hpp | 14 +++++++++-----
 src/SAX/wrappers/saxexpat.cpp     |  4 ++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index a028326..84b5bb3 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -119,7 +119,7 @@ private:
   virtual void startCdataSection() = 0;
   virtual void endCdataSection() = 0;
   virtual void commentHandler(const XML_Char* data) = 0;
-  virtual void skippedEntity(const XML_Char* entityName) = 0;
+  virtual void skippedEntity(const XML_Char* entityName, int is_parameter_entity) = 0;
   virtual int externalEntityRefHandler(XML_Parser parser, 
                                        const XML_Char* context,
                                        const XML_Char* base,
@@ -301,7 +301,7 @@ class expat_wrapper :
     virtual void startCdataSection();
     virtual void endCdataSection();
     virtual void commentHandler(const XML_Char* data);
-    virtual void skippedEntity(const XML_Char* entityName);
+    virtual void skippedEntity(const XML_Char* entityName, int is_parameter_entity);
     virtual int externalEntityRefHandler(XML_Parser parser, 
                                          const XML_Char* context,
                                          const XML_Char* base,
@@ -988,10 +988,14 @@ void expat_wrapper<string_type, T0, T1>::commentHandler(const XML_Char *data)
 } // commentHandler
 
 template<class string_type, class T0, class T1>
-void expat_wrapper<string_type, T0, T1>::skippedEntity(const XML_Char *entityName)
+void expat_wrapper<string_type, T0, T1>::skippedEntity(const XML_Char *entityName, int is_parameter_entity)
 {
-  if(contentHandler_)
-    contentHandler_->skippedEntity(SA::construct_from_utf8(entityName));
+  if(!contentHandler_)
+    return;
+
+  string_type name = SA::construct_from_utf8(is_parameter_entity ? "%" : "");
+  SA::append(name, SA::construct_from_utf8(entityName));
+  contentHandler_->skippedEntity(name);
 } // skippedEntity
 
 template<class string_type, class T0, class T1>
diff --git a/src/SAX/wrappers/saxexpat.cpp b/src/SAX/wrappers/saxexpat.cpp
index 6df8219..36a858f 100644
--- a/src/SAX/wrappers/saxexpat.cpp
+++ b/src/SAX/wrappers/saxexpat.cpp
@@ -119,10 +119,10 @@ void ewim_commentHandler(void* userData, const XML_Char* data)
   p->commentHandler(data);
 } // commentHandler
 
-void ewim_skippedEntityHandler(void* userData, const XML_Char* entityName, int /* is_parameter_entity */)
+void ewim_skippedEntityHandler(void* userData, const XML_Char* entityName, int is_parameter_entity)
 {
   expat2base* p = reinterpret_cast<expat2base*>(userData);
-  p->skippedEntity(entityName);
+  p->skippedEntity(entityName, is_parameter_entity);
 } // skippedEntityHandler
 
 
-- 
2.43.0


From bec67ccbb43e4d8e6a344d741f4b263d746987ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:39 +0000
Subject: [PATCH 54/63] fix: Expat reader carried state of an abandoned
 document into the next

---
 include/SAX/wrappers/saxexpat.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/SAX/wrappers/saxexpat.hpp b/include/SAX/wrappers/saxexpat.hpp
index 84b5bb3..58640e0 100644
--- a/include/SAX/wrappers/saxexpat.hpp
+++ b/include/SAX/wrappers/saxexpat.hpp
@@ -452,6 +452,12 @@ bool expat_wrapper<string_type, T0, T1>::getFeature(const string_type& name) con
 template<class string_type, class T0, class T1>
 void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 {
+  // whatever became of the previous document, start afresh
+  XML_ParserReset(parser_, 0);
+  nsSupport_.reset();
+  namespaceContextCreated_.clear();
+  declaredExternalEnts_.clear();
+
   setCallbacks();
 
   publicId_ = source.getPublicId();
@@ -460,7 +466,12 @@ void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
   if(contentHandler_)
     contentHandler_->setDocumentLocator(*this);
 
-  parsing_ = true;
+  struct Parsing
+  {
+    explicit Parsing(bool& flag) : flag_(flag) { flag_ = true; }
+    ~Parsing() { flag_ = false; }
+    bool& flag_;
+  } parsing(parsing_);
 
   if(contentHandler_)
     contentHandler_->startDocument();
@@ -472,8 +483,6 @@ void expat_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
   if(contentHandler_)
     contentHandler_->endDocument();
 
-  parsing_ = false;
-
   XML_ParserReset(parser_, 0);
 } // parse
 
-- 
2.43.0


From e619e09017d65a3d87e3aef94f936a81c75cfc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:27 +0000
Subject: [PATCH 55/63] fix: XSLT output wrote copied namespace declarations as
 attributes of another name

---
 include/XSLT/impl/xslt_namespace_stack.hpp | 16 ++++++++++++++++
 include/XSLT/impl/xslt_output.hpp          | 17 ++++++++++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/include/XSLT/impl/xslt_namespace_stack.hpp b/include/XSLT/impl/xslt_namespace_stack.hpp
index 465ec32..9a9719a 100644
--- a/include/XSLT/impl/xslt_namespace_stack.hpp
+++ b/include/XSLT/impl/xslt_namespace_stack.hpp
@@ -54,6 +54,22 @@ public:
     uriStack_.back()[namespaceURI] = prefix;
   } // declareNamespace
 
+  // declare prefix as given, unless it already is something else
+  bool keepDeclaration(const string_type& prefix, const string_type& namespaceURI)
+  {
+    if(string_adaptor::empty(prefix) || string_adaptor::empty(namespaceURI))
+      return false;
+
+    const string_type& declared = findURI(prefix);
+    if(!string_adaptor::empty(declared))
+      return declared == namespaceURI;
+
+    if(string_adaptor::empty(findPrefix(namespaceURI)))
+      uriStack_.back()[namespaceURI] = prefix;
+    prefixStack_.back()[prefix] = namespaceURI;
+    return true;
+  } // keepDeclaration
+
   void undeclareDefault()
   {
     if(findURI(EMPTY_STRING) != EMPTY_STRING)
diff --git a/include/XSLT/impl/xslt_output.hpp b/include/XSLT/impl/xslt_output.hpp
index 193c9d9..d2904c9 100644
--- a/include/XSLT/impl/xslt_output.hpp
+++ b/include/XSLT/impl/xslt_output.hpp
@@ -159,7 +159,22 @@ public:
       return;
     } // if ...
 
-    set_attribute(QName<string_type, string_adaptor>::create(qName, uri).prefix, localName, uri, value);
+    if(qName == SC::xmlns)
+      return;  // the element has declared its own namespace
+    if(string_adaptor::find(qName, SC::xmlns_colon) == 0)
+    {
+      namespaceStack_.keepDeclaration(localName, value);
+      return;
+    } // if ...
+
+    string_type prefix = QName<string_type, string_adaptor>::create(qName, uri).prefix;
+    if((uri == SC::xml_uri) && (prefix != SC::xml) && namespaceStack_.keepDeclaration(prefix, uri))
+    { // some documents have their own prefix for the XML namespace
+      atts_.addOrReplaceAttribute(uri, localName, qName, string_adaptor::empty_string(), value);
+      return;
+    } // if ...
+
+    set_attribute(prefix, localName, uri, value);
   } // add_attribute
 
   void characters(const string_type& ch)
-- 
2.43.0


From f669a7e237f48a13ced7ed1c447fe40fb55e4e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:21 +0000
Subject: [PATCH 56/63] fix: libxml2 reader crashed on EMPTY and misreported
 content models

---
 include/SAX/wrappers/saxlibxml2.hpp | 83 ++++++++++++++---------------
 1 file changed, 40 insertions(+), 43 deletions(-)

diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index b693b52..3fa3892 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -200,7 +200,8 @@ class libxml2_wrapper :
     virtual void SAXnotationDecl(const xmlChar *name, const xmlChar *publicId, const xmlChar *systemId);
     virtual void SAXunparsedEntityDecl(const xmlChar *name, const xmlChar *publicId, const xmlChar *systemId, const xmlChar *notationName);
     virtual void SAXelementDecl(const xmlChar* name, int type, xmlElementContentPtr content);
-    void convertXML_Content(std::ostream& os, int type, xmlElementContentPtr model, bool isChild) const;
+    void convertXML_Content(std::ostream& os, int type, xmlElementContentPtr model) const;
+    void convertXML_Content(std::ostream& os, xmlElementContentPtr model, bool isChild) const;
     virtual void SAXattributeDecl(const xmlChar *elem, const xmlChar *fullname, int type, int def, const xmlChar *defaultValue, xmlEnumerationPtr tree);
     string_type stringAttrEnum(xmlEnumerationPtr tree, bool leadingSpace) const;
     virtual void SAXentityDecl(const xmlChar *name, int type, const xmlChar *publicId, const xmlChar *systemId,	xmlChar *content);
@@ -708,66 +709,62 @@ void libxml2_wrapper<string_type, T0, T1>::SAXelementDecl(const xmlChar* name, i
     return;
 
   std::ostringstream os;
-  convertXML_Content(os, type, content, false);
+  convertXML_Content(os, type, content);
   declHandler_->elementDecl(string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(name)), string_adaptor::construct_from_utf8(os.str().c_str()));
 } // elementDeclaration
 
 template<class string_type, class T0, class T1>
-void libxml2_wrapper<string_type, T0, T1>::convertXML_Content(std::ostream& os, int type, xmlElementContentPtr model, bool isChild) const
+void libxml2_wrapper<string_type, T0, T1>::convertXML_Content(std::ostream& os, int type, xmlElementContentPtr model) const
 {
-  char concatenator = ' ';
-
+  // there is no content model to go with these two
   switch(type)
   {
     case XML_ELEMENT_TYPE_EMPTY:
       os << "EMPTY";
-      break;
+      return;
     case XML_ELEMENT_TYPE_ANY:
       os << "ANY";
       return;
-    case XML_ELEMENT_TYPE_MIXED:
-      if(model->c1 == 0)
-        os << "(#PCDATA)";
-      else
-        os << "(#PCDATA";
-      concatenator = '|';
-      break;
-    case XML_ELEMENT_TYPE_ELEMENT:
-      break;
   } // switch
 
-  switch(model->type)
-  {
-    case XML_ELEMENT_CONTENT_ELEMENT:
-      if(!isChild)
-        os << '(' << model->name << ')';
-      else
-        os << model->name;
-      break;
-    case XML_ELEMENT_CONTENT_SEQ:
-      concatenator = ',';
-      break;
-    case XML_ELEMENT_CONTENT_OR:
-      concatenator = '|';
-      break;
-    case XML_ELEMENT_CONTENT_PCDATA:
-      break;
-  } // switch
+  convertXML_Content(os, model, false);
+} // convertXML_Content
+
+template<class string_type, class T0, class T1>
+void libxml2_wrapper<string_type, T0, T1>::convertXML_Content(std::ostream& os, xmlElementContentPtr model, bool isChild) const
+{
+  if(model == 0)
+    return;
+
+  const bool group = (model->type == XML_ELEMENT_CONTENT_SEQ) || (model->type == XML_ELEMENT_CONTENT_OR);
+  const bool brackets = group || !isChild;
 
-  // do children here
-  if(model->c1 != 0)
+  if(brackets)
+    os << '(';
+
+  if(group)
   {
-    if(!isChild)
-      os << '(';
-    convertXML_Content(os, XML_ELEMENT_TYPE_ELEMENT, model->c1, true);
-    if(model->c2 != 0)
+    // a list of three is a pair of the first and a list of the other two
+    xmlElementContentPtr rest = model;
+    do
     {
-      os << concatenator;
-      convertXML_Content(os, XML_ELEMENT_TYPE_ELEMENT, model->c2, true);
-    } // if ...
-    if(!isChild)
-      os << ')';
+      convertXML_Content(os, rest->c1, true);
+      os << ((model->type == XML_ELEMENT_CONTENT_SEQ) ? ',' : '|');
+      rest = rest->c2;
+    } while((rest != 0) && (rest->type == model->type) && (rest->ocur == XML_ELEMENT_CONTENT_ONCE));
+    convertXML_Content(os, rest, true);
   } // if ...
+  else if(model->type == XML_ELEMENT_CONTENT_PCDATA)
+    os << "#PCDATA";
+  else
+  {
+    if(model->prefix != 0)
+      os << model->prefix << ':';
+    os << model->name;
+  } // if ...
+
+  if(brackets)
+    os << ')';
 
   switch(model->ocur)
   {
-- 
2.43.0


From 519b66679dbc058caa36eedee31eff4f2f0e5ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:22 +0000
Subject: [PATCH 57/63] fix: libxml2 reader reported the wrong defaults and
 types of declared attributes

---
 include/SAX/wrappers/saxlibxml2.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index 3fa3892..a854321 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -791,9 +791,19 @@ void libxml2_wrapper<string_type, T0, T1>::SAXattributeDecl(const xmlChar *elem,
   if(!declHandler_)
     return;
 
-  const string_type* defType = &attrDefaults_.implied;
-  if(def)
-    defType = (defaultValue) ? &attrDefaults_.fixed : &attrDefaults_.required;
+  const string_type* defType = &emptyString_;
+  switch(def)
+  {
+    case XML_ATTRIBUTE_REQUIRED:
+      defType = &attrDefaults_.required;
+      break;
+    case XML_ATTRIBUTE_IMPLIED:
+      defType = &attrDefaults_.implied;
+      break;
+    case XML_ATTRIBUTE_FIXED:
+      defType = &attrDefaults_.fixed;
+      break;
+  } // switch(def)
 
   string_type typeStr;
   switch(type)
@@ -850,7 +860,7 @@ string_type  libxml2_wrapper<string_type, T0, T1>::stringAttrEnum(xmlEnumeration
     os << tree->name;
     tree = tree->next;
     if(tree)
-      os << " | ";
+      os << "|";
   } // while
   os << ")";
 
-- 
2.43.0


From 0b899a7720c0cb556def1d3673dc3c9c54424f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:22 +0000
Subject: [PATCH 58/63] fix: libxml2 reader did not report the declarations of
 parameter entities

---
 include/SAX/wrappers/saxlibxml2.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index a854321..79422e5 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -876,14 +876,20 @@ void libxml2_wrapper<string_type, T0, T1>::SAXentityDecl(const xmlChar *name, in
   if(!declHandler_)
     return;
 
+  std::string entityName(reinterpret_cast<const char*>(name));
+  if((type == XML_INTERNAL_PARAMETER_ENTITY) || (type == XML_EXTERNAL_PARAMETER_ENTITY))
+    entityName.insert(0, "%");
+
   switch(type)
   {
-    case 1:  // internal
-      declHandler_->internalEntityDecl(string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(name)),
+    case XML_INTERNAL_GENERAL_ENTITY:
+    case XML_INTERNAL_PARAMETER_ENTITY:
+      declHandler_->internalEntityDecl(string_adaptor::construct_from_utf8(entityName.c_str()),
                                        string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(content)));
       break;
-    case 2:  // external
-      declHandler_->externalEntityDecl(string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(name)),
+    case XML_EXTERNAL_GENERAL_PARSED_ENTITY:
+    case XML_EXTERNAL_PARAMETER_ENTITY:
+      declHandler_->externalEntityDecl(string_adaptor::construct_from_utf8(entityName.c_str()),
                                        string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(publicId)),
                                        string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(systemId)));
       break;
-- 
2.43.0


From a9043d738fbe6373bbe5455c50a6986024b6f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:22 +0000
Subject: [PATCH 59/63] fix: libxml2 reader took attributes whose names begin
 xmlns for namespace declarations

---
 include/SAX/wrappers/saxlibxml2.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index 79422e5..397c6db 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -209,6 +209,7 @@ class libxml2_wrapper :
     virtual xmlParserCtxtPtr parserContext() { return context_; }
 
 
+    bool isNamespaceDeclaration(const string_type& attQName) const;
     qualifiedNameT processName(const string_type& qName, bool isAttribute);
     void reportError(const std::string& message, bool fatal = false);
     void checkNotParsing(const string_type& type, const string_type& name) const;
@@ -342,6 +343,16 @@ void libxml2_wrapper<string_type, T0, T1>::setFeature(const string_type& name, b
   }
 } // setFeature
 
+template<class string_type, class T0, class T1>
+bool libxml2_wrapper<string_type, T0, T1>::isNamespaceDeclaration(const string_type& attQName) const
+{
+  string_type declaration = nsc_.xmlns;
+  if(attQName == declaration)
+    return true;
+  string_adaptor::append(declaration, nsc_.colon);
+  return string_adaptor::find(attQName, declaration) == 0;
+} // isNamespaceDeclaration
+
 template<class string_type, class T0, class T1>
 typename XML::QualifiedName<string_type, typename libxml2_wrapper<string_type, T0, T1>::string_adaptor> libxml2_wrapper<string_type, T0, T1>::processName(const string_type& qName, bool isAttribute)
 {
@@ -569,7 +580,7 @@ void libxml2_wrapper<string_type, T0, T1>::SAXstartElement(const xmlChar* qName,
       string_type value = string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(*a1++));
 
       // declaration?
-      if(string_adaptor::find(attQName, nsc_.xmlns) == 0)
+      if(isNamespaceDeclaration(attQName))
       {
         string_type prefix;
         typename string_adaptor::size_type n = string_adaptor::find(attQName, nsc_.colon);
@@ -593,7 +604,7 @@ void libxml2_wrapper<string_type, T0, T1>::SAXstartElement(const xmlChar* qName,
       string_type value = string_adaptor::construct_from_utf8(reinterpret_cast<const char*>(*atts++));
 
       // declaration?
-      if(string_adaptor::find(attQName, nsc_.xmlns) != 0)
+      if(!isNamespaceDeclaration(attQName))
       {
         qualifiedNameT attName = processName(attQName, true);
         attributes.addAttribute(attName.namespaceUri(),
-- 
2.43.0


From ae19549a092535cba7e76293ceb1261a5717d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:22 +0000
Subject: [PATCH 60/63] fix: libxml2 reader carried state of an abandoned
 document into the next

---
 include/SAX/wrappers/saxlibxml2.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index 397c6db..93ffcaa 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -421,15 +421,25 @@ size_t libxml2_wrapper<string_type, T0, T1>::getColumnNumber() const
 template<class string_type, class T0, class T1>
 void libxml2_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 {
+  // whatever became of the previous document, start afresh
+  xmlCtxtResetPush(context_, 0, 0, 0, 0);
+  nsSupport_.reset();
+  isInCData_ = false;
+
   if(contentHandler_)
     contentHandler_->setDocumentLocator(*this);
 
+  struct Parsing
+  {
+    explicit Parsing(bool& flag) : flag_(flag) { flag_ = true; }
+    ~Parsing() { flag_ = false; }
+    bool& flag_;
+  } parsing(parsing_);
+
   InputSourceResolver is(source, string_adaptor());
   if(is.resolve() == 0)
     return;
 
-  parsing_ = true;
-
 	while(!is.resolve()->eof())
  	{
 		char buffer[4096];
@@ -438,8 +448,6 @@ void libxml2_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 	} // while(!in.eof())
 
   xmlCtxtResetPush(context_, 0, 0, 0, 0);
-
-  parsing_ = false;
 } // parse
 
 template<class string_type, class T0, class T1>
-- 
2.43.0


From 7d7bd72c19888091122f39d7b404cb495e55b604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:34 +0000
Subject: [PATCH 61/63] fix: libxml2 reader kept quiet about a document which
 could not be found

---
 include/SAX/wrappers/saxlibxml2.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index 93ffcaa..2bb908f 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -438,7 +438,10 @@ void libxml2_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 
   InputSourceResolver is(source, string_adaptor());
   if(is.resolve() == 0)
+  {
+    reportError("Could not resolve XML document", true);
     return;
+  } // if ...
 
 	while(!is.resolve()->eof())
  	{
-- 
2.43.0


From 8b805cef980e0e5b77b2ecfbf3c33e81a00ff14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:34 +0000
Subject: [PATCH 62/63] fix: libxml2 reader did not know where its document
 came from

---
 include/SAX/wrappers/saxlibxml2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/SAX/wrappers/saxlibxml2.hpp b/include/SAX/wrappers/saxlibxml2.hpp
index 2bb908f..ed5051b 100644
--- a/include/SAX/wrappers/saxlibxml2.hpp
+++ b/include/SAX/wrappers/saxlibxml2.hpp
@@ -422,7 +422,8 @@ template<class string_type, class T0, class T1>
 void libxml2_wrapper<string_type, T0, T1>::parse(inputSourceT& source)
 {
   // whatever became of the previous document, start afresh
-  xmlCtxtResetPush(context_, 0, 0, 0, 0);
+  const std::string systemId = string_adaptor::asStdString(source.getSystemId());
+  xmlCtxtResetPush(context_, 0, 0, systemId.empty() ? 0 : systemId.c_str(), 0);
   nsSupport_.reset();
   isInCData_ = false;
 
-- 
2.43.0


From 5472a2427541ac18db1583bb19f749c9cf33e409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:55 +0000
Subject: [PATCH 63/63] fix: libxml2 reader leaked the enumerated types of
 declared attributes

---
 src/SAX/wrappers/saxlibxml2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SAX/wrappers/saxlibxml2.cpp b/src/SAX/wrappers/saxlibxml2.cpp
index b1650a0..6442732 100644
--- a/src/SAX/wrappers/saxlibxml2.cpp
+++ b/src/SAX/wrappers/saxlibxml2.cpp
@@ -148,6 +148,8 @@ void lwit_attributeDecl(void *user_data, const xmlChar *elem, const xmlChar *ful
 {
   libxml2_base* p = reinterpret_cast<libxml2_base*>(user_data);
   p->SAXattributeDecl(elem, fullname, type, def, defaultValue, tree);
+  // libxml2 leaves this to us
+  xmlFreeEnumeration(tree);
 } // lwit_attributeDecl
 
 void lwit_entityDecl(void* user_data, const xmlChar *name, int type, const xmlChar *publicId, const xmlChar *systemId,	xmlChar *content)
-- 
2.43.0

