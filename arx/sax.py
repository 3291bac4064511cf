"""SAX vocabulary shared by checks: handler interfaces and their events."""
HANDLERS = {
    "EntityResolver": ["resolveEntity"],
    "DTDHandler": ["notationDecl", "unparsedEntityDecl"],
    "ContentHandler": ["setDocumentLocator", "startDocument", "endDocument", "startPrefixMapping", "endPrefixMapping", "startElement",
                       "endElement", "characters", "ignorableWhitespace", "processingInstruction", "skippedEntity"],
    "ErrorHandler": ["warning", "error", "fatalError"],
    "DeclHandler": ["elementDecl", "attributeDecl", "internalEntityDecl", "externalEntityDecl"],
    "LexicalHandler": ["startDTD", "endDTD", "startEntity", "endEntity", "startCDATA", "endCDATA", "comment"],
}
ARITY = dict(resolveEntity=2, notationDecl=3, unparsedEntityDecl=4, setDocumentLocator=1, startDocument=0, endDocument=0,
             startPrefixMapping=2, endPrefixMapping=1, startElement=4, endElement=3, characters=1, ignorableWhitespace=1,
             processingInstruction=2, skippedEntity=1, warning=1, error=1, fatalError=1, elementDecl=2, attributeDecl=5,
             internalEntityDecl=2, externalEntityDecl=3, startDTD=3, endDTD=0, startEntity=1, endEntity=1, startCDATA=0, endCDATA=0,
             comment=1)
IFACE = {e: h for h, es in HANDLERS.items() for e in es}


def handler_event(ev):
    """(interface, event) if ev is a call of a SAX handler interface method, else None"""
    cls = (ev.cls or "").rsplit("::", 1)[-1]
    if ev.kind == "call" and cls in HANDLERS and ev.short in HANDLERS[cls]:
        return cls, ev.short
    return None
