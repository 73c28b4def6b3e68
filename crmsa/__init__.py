"""Static analysis of conda-recipe-manager (crmsa): reads /repo's source, never imports or runs it."""
