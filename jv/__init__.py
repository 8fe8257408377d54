"""Static analysis of garciparedes/jinete: program model, normal-form dataflow engine, rules."""
