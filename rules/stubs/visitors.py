"""Analysed together with fluent.syntax (never executed): visitors and transformers as a user would write them."""
from fluent.syntax.visitor import Transformer, Visitor


class Everything(Visitor):
    def __init__(self):
        self.seen = []

    def generic_visit(self, node):
        self.seen.append(node)
        super().generic_visit(node)


class Handlers(Visitor):
    def __init__(self, stop):
        self.seen = []
        self.stop = stop

    def generic_visit(self, node):
        self.seen.append(("generic", node))
        super().generic_visit(node)

    def visit_Resource(self, node):
        self.seen.append(("Resource", node))
        if "Resource" not in self.stop:
            super().generic_visit(node)

    def visit_Message(self, node):
        self.seen.append(("Message", node))
        if "Message" not in self.stop:
            super().generic_visit(node)

    def visit_Term(self, node):
        self.seen.append(("Term", node))
        if "Term" not in self.stop:
            super().generic_visit(node)

    def visit_Pattern(self, node):
        self.seen.append(("Pattern", node))
        if "Pattern" not in self.stop:
            super().generic_visit(node)

    def visit_TextElement(self, node):
        self.seen.append(("TextElement", node))
        if "TextElement" not in self.stop:
            super().generic_visit(node)

    def visit_Placeable(self, node):
        self.seen.append(("Placeable", node))
        if "Placeable" not in self.stop:
            super().generic_visit(node)

    def visit_StringLiteral(self, node):
        self.seen.append(("StringLiteral", node))
        if "StringLiteral" not in self.stop:
            super().generic_visit(node)

    def visit_NumberLiteral(self, node):
        self.seen.append(("NumberLiteral", node))
        if "NumberLiteral" not in self.stop:
            super().generic_visit(node)

    def visit_MessageReference(self, node):
        self.seen.append(("MessageReference", node))
        if "MessageReference" not in self.stop:
            super().generic_visit(node)

    def visit_TermReference(self, node):
        self.seen.append(("TermReference", node))
        if "TermReference" not in self.stop:
            super().generic_visit(node)

    def visit_VariableReference(self, node):
        self.seen.append(("VariableReference", node))
        if "VariableReference" not in self.stop:
            super().generic_visit(node)

    def visit_FunctionReference(self, node):
        self.seen.append(("FunctionReference", node))
        if "FunctionReference" not in self.stop:
            super().generic_visit(node)

    def visit_SelectExpression(self, node):
        self.seen.append(("SelectExpression", node))
        if "SelectExpression" not in self.stop:
            super().generic_visit(node)

    def visit_CallArguments(self, node):
        self.seen.append(("CallArguments", node))
        if "CallArguments" not in self.stop:
            super().generic_visit(node)

    def visit_Attribute(self, node):
        self.seen.append(("Attribute", node))
        if "Attribute" not in self.stop:
            super().generic_visit(node)

    def visit_Variant(self, node):
        self.seen.append(("Variant", node))
        if "Variant" not in self.stop:
            super().generic_visit(node)

    def visit_NamedArgument(self, node):
        self.seen.append(("NamedArgument", node))
        if "NamedArgument" not in self.stop:
            super().generic_visit(node)

    def visit_Identifier(self, node):
        self.seen.append(("Identifier", node))
        if "Identifier" not in self.stop:
            super().generic_visit(node)

    def visit_Comment(self, node):
        self.seen.append(("Comment", node))
        if "Comment" not in self.stop:
            super().generic_visit(node)

    def visit_GroupComment(self, node):
        self.seen.append(("GroupComment", node))
        if "GroupComment" not in self.stop:
            super().generic_visit(node)

    def visit_ResourceComment(self, node):
        self.seen.append(("ResourceComment", node))
        if "ResourceComment" not in self.stop:
            super().generic_visit(node)

    def visit_Junk(self, node):
        self.seen.append(("Junk", node))
        if "Junk" not in self.stop:
            super().generic_visit(node)

    def visit_Span(self, node):
        self.seen.append(("Span", node))
        if "Span" not in self.stop:
            super().generic_visit(node)

    def visit_Annotation(self, node):
        self.seen.append(("Annotation", node))
        if "Annotation" not in self.stop:
            super().generic_visit(node)


class Nothing(Transformer):
    pass


class Edits(Transformer):
    def __init__(self, plan):
        self.seen = []
        self.plan = plan

    def handle(self, name, node):
        self.seen.append((name, node))
        for other, result in self.plan:
            if other is node:
                return result
        return self.generic_visit(node)

    def visit_Resource(self, node):
        return self.handle("Resource", node)

    def visit_Message(self, node):
        return self.handle("Message", node)

    def visit_Term(self, node):
        return self.handle("Term", node)

    def visit_Pattern(self, node):
        return self.handle("Pattern", node)

    def visit_TextElement(self, node):
        return self.handle("TextElement", node)

    def visit_Placeable(self, node):
        return self.handle("Placeable", node)

    def visit_StringLiteral(self, node):
        return self.handle("StringLiteral", node)

    def visit_NumberLiteral(self, node):
        return self.handle("NumberLiteral", node)

    def visit_MessageReference(self, node):
        return self.handle("MessageReference", node)

    def visit_TermReference(self, node):
        return self.handle("TermReference", node)

    def visit_VariableReference(self, node):
        return self.handle("VariableReference", node)

    def visit_FunctionReference(self, node):
        return self.handle("FunctionReference", node)

    def visit_SelectExpression(self, node):
        return self.handle("SelectExpression", node)

    def visit_CallArguments(self, node):
        return self.handle("CallArguments", node)

    def visit_Attribute(self, node):
        return self.handle("Attribute", node)

    def visit_Variant(self, node):
        return self.handle("Variant", node)

    def visit_NamedArgument(self, node):
        return self.handle("NamedArgument", node)

    def visit_Identifier(self, node):
        return self.handle("Identifier", node)

    def visit_Comment(self, node):
        return self.handle("Comment", node)

    def visit_GroupComment(self, node):
        return self.handle("GroupComment", node)

    def visit_ResourceComment(self, node):
        return self.handle("ResourceComment", node)

    def visit_Junk(self, node):
        return self.handle("Junk", node)

    def visit_Span(self, node):
        return self.handle("Span", node)

    def visit_Annotation(self, node):
        return self.handle("Annotation", node)
